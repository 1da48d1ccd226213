From 77781a0b0be62c3e48f58c93de40a6574c4b0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 001/174] fix: raise when a Kaldi matrix is cut short or has a
 wrong token

The missing 'raise' let an unknown token through, and a vector, compressed
matrix or text matrix that ended early was returned shortened or empty.
---
 hyperion/utils/kaldi_matrix.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 04f20b9..32a63d3 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -77,11 +77,11 @@ class KaldiMatrix(object):
             if token[0] == 'F' : dtype = 'float32'
             elif token[0] == 'D': dtype = 'float64'
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
             if token[1] == 'V' : ndim = 1
             elif token[1] == 'M': ndim = 2
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
 
             rows_left = 0
             if ndim == 2:
@@ -104,7 +104,10 @@ class KaldiMatrix(object):
             
             if row_offset > 0:
                 f.seek(row_offset*num_cols*np.dtype(dtype).itemsize, 1)
-            data = f.read(num_rows*num_cols*np.dtype(dtype).itemsize)
+            num_bytes = num_rows*num_cols*np.dtype(dtype).itemsize
+            data = f.read(num_bytes)
+            if len(data) != num_bytes:
+                raise ValueError('EOF reading matrix')
             if rows_left > 0 and sequential_mode:
                 f.seek(rows_left*num_cols*np.dtype(dtype).itemsize, 1)
                 
@@ -151,7 +154,7 @@ class KaldiMatrix(object):
                         mat = mat.ravel()
                     return cls(mat)
                 
-            return cls(np.array([], dtype='float32'))
+            raise ValueError('EOF reading matrix')
             
 
         
@@ -211,11 +214,11 @@ class KaldiMatrix(object):
             if token[0] == 'F' : dtype = 'float32'
             elif token[0] == 'D': dtype = 'float64'
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
             if token[1] == 'V' : ndim = 1
             elif token[1] == 'M': ndim = 2
             else:
-                ValueError('Wrong token %s ' % token)
+                raise ValueError('Wrong token %s ' % token)
 
             if ndim == 2:
                 num_rows = read_int32(f, binary)
@@ -729,6 +732,9 @@ class KaldiCompressedMatrix(object):
                         if bytes_left > 0:
                             f.seek(bytes_left*num_cols, 1)
                         data = header + data
+
+                if len(data) != cls._data_size(header):
+                    raise ValueError('EOF reading matrix')
                     
                 return cls(data)
             else:
-- 
2.43.0


From 2606c120a932e5f2b7b7d38719ec877ee6573081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 002/174] fix: keep a row range given by the caller inside the
 range of the scp file

A row_offset without num_rows read past the end of the scp range, and
row_offset+num_rows was not checked against it.
---
 hyperion/io/data_reader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..e9b890c 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -124,13 +124,16 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
+        if read_range[1] > 0:
+            # rows of the scp range that are left after the user defined offset
+            rows_left = read_range[1] - row_offset
+            if num_rows == 0:
+                assert rows_left > 0
+                num_rows = rows_left
+            else:
+                assert rows_left >= num_rows
+
         row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
 
         return row_offset, num_rows
 
-- 
2.43.0


From 9df92bab63b434baf2a345c0d31e95ef29d4cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 003/174] fix: per-record row ranges in
 SequentialArkFileDataReader.read

The index variable was undefined, so passing lists raised NameError.
---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 61458f65db60e7374e3a251c1212a46902e18003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 004/174] fix: read_shapes at the end of a script file returns
 empty lists

It raised IndexError instead, unlike the archive readers.
---
 hyperion/io/ark_data_reader.py | 2 +-
 hyperion/io/h5_data_reader.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..4b46109 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -347,7 +347,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..bdd3b6e 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -355,8 +355,8 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             keys.append(key)
             shapes.append(shape_i)
             self.cur_item += 1
-            
-        if assert_same_dim:
+
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From 87e8d2df3946247307a57278cda210de15463640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 005/174] fix: writers open in the current directory and in
 parallel jobs

An archive or script path without a directory raised FileNotFoundError, and
two jobs that created the same output directory at once could both see it
missing and one of them failed with FileExistsError.
---
 hyperion/io/audio_writer.py | 3 +--
 hyperion/io/data_writer.py  | 8 ++++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/audio_writer.py b/hyperion/io/audio_writer.py
index decef14..7e00199 100644
--- a/hyperion/io/audio_writer.py
+++ b/hyperion/io/audio_writer.py
@@ -50,8 +50,7 @@ class AudioWriter(object):
             self.subtype = subtype
             assert sf.check_format(self.audio_format, self.subtype)
 
-        if not os.path.exists(output_path):
-            os.makedirs(output_path)
+        os.makedirs(output_path, exist_ok=True)
 
         if script_path is not None:
             self.f_script = open(script_path, 'w')
diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..f978d62 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,13 +37,13 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
-            os.makedirs(archive_dir)
+        if archive_dir:
+            os.makedirs(archive_dir, exist_ok=True)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
-                os.makedirs(script_dir)
+            if script_dir:
+                os.makedirs(script_dir, exist_ok=True)
             
 
         
-- 
2.43.0


From 53e97ae68846d6aa70719eca68d54d8f4f852267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 006/174] fix: SCPList keeps the ranges it is given as a list

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From 1ad297d58957edabeb77f8850ae3c31e5c2c89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 007/174] fix: splitting an empty list by groups gives empty
 parts

---
 hyperion/utils/list_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/list_utils.py b/hyperion/utils/list_utils.py
index 9a5306e..230c2d5 100644
--- a/hyperion/utils/list_utils.py
+++ b/hyperion/utils/list_utils.py
@@ -139,8 +139,8 @@ def split_list_group_by_key(a, idx, num_parts, key = None):
         a = np.asarray(a)
     if key is None:
         key = a
-    _, ids=np.unique(key, return_inverse=True)
-    n = float(ids.max()+1)
+    groups, ids=np.unique(key, return_inverse=True)
+    n = float(len(groups))
     idx_1 = int(np.floor((idx-1)*n/num_parts))
     idx_2 = int(np.floor(idx*n/num_parts))
     loc = np.empty(len(a), dtype='int64')
-- 
2.43.0


From 1fab646a2167e2235907979f757eddf2dfbf2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 008/174] fix: Utt2Info.info returns the columns of every
 utterance

---
 hyperion/utils/utt2info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..17bb774 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:,1:])
         else:
             return np.asarray(self.utt_info[1])
 
-- 
2.43.0


From 608d6c591a14e08ac409b21588b81348e6dfc2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 009/174] fix: TrialKey keeps conditions aligned with models,
 segments and trials

---
 hyperion/utils/trial_key.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..002df25 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[(slice(None),) + ix]
         
         
     def save(self, file_path):
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[(slice(None),) + ix_a] = trial_cond[(slice(None),) + ix_b]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[(slice(None),) + ix_a] = key_i.trial_cond[(slice(None),) + ix_b]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From 01c2462861da3d6e1c79166ea2bde366b6d3598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 010/174] fix: TrialScores.filter removes segments from the
 segment list

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..60fc267 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
-- 
2.43.0


From fddacfa572d1083595200ec74115ef078f62cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 011/174] fix: TrialScores without a score matrix starts from
 zeros

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 60fc267..8e8e394 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -311,7 +311,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
-- 
2.43.0


From 5241e10e6eb87b920a13010bc492a7c9382dba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 012/174] fix: TrialScores.merge ignores values outside the
 score masks

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 8e8e394..34abbd8 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -223,7 +223,7 @@ class TrialScores(object):
 
             model_set = new_model_set
             seg_set = new_seg_set
-            scores = scores_1 + scores_2
+            scores = np.where(score_mask_1, scores_1, 0) + np.where(score_mask_2, scores_2, 0)
             assert(not(np.any(np.logical_and(score_mask_1, score_mask_2))))
             score_mask= np.logical_or(score_mask_1, score_mask_2)
                             
-- 
2.43.0


From bccc15f47d388469ce012d6624b199d3e233dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 013/174] fix: SegmentList can be created from its fields

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..c9868a8 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
-- 
2.43.0


From 1b9469680a07c09c9dc2aa825b0527df74173f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 014/174] fix: SegmentList lookups by position, by id and of
 files with one segment

---
 hyperion/utils/segment_list.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index c9868a8..4ba42e5 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -110,7 +110,7 @@ class SegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_by_file:
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
         
@@ -146,7 +146,7 @@ class SegmentList(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segment_id
 
 
     
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
-- 
2.43.0


From 771fd797452f020c51122a2a163b9f132f32ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 015/174] fix: label files keep labels such as NA or None

---
 hyperion/utils/utt2info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 17bb774..32ea1cc 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -175,7 +175,8 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype,
+                         keep_default_na=False, na_values=[''])
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From bc1d071f90f7b43699f955b6452877282f87f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 016/174] fix: segment files keep numeric-looking and NA ids as
 they are

---
 hyperion/utils/segment_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 4ba42e5..794ba18 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -244,7 +244,9 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str},
+                         keep_default_na=False, na_values=[''])
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 0059c1d56ec3def1ef224df2dadd5e357da68f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 017/174] fix: RTTM files keep missing fields and
 numeric-looking ids

---
 hyperion/utils/rttm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..b7713b6 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -279,7 +279,7 @@ class RTTM(object):
                        'tbeg','tdur','ortho', 'stype',
                        'name', 'conf', 'slat']].to_csv(
                            file_path, sep=sep, float_format='%.3f',
-                           index=False, header=False)
+                           index=False, header=False, na_rep='<NA>')
 
 
         
@@ -296,7 +296,9 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'file_id': str, 'name': str},
+                         keep_default_na=False, na_values=['', '<NA>'])
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 81155f8dd5c731ca141c4407eeb9e41e6cffeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 018/174] fix: trial data readers split the trial list they
 loaded

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..620027e 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From 72dc97d83a22a4556d4dd9faf096f94e4a2fefdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 019/174] fix: audio readers take a SegmentList object as
 segments

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..91718a0 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,7 +44,7 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
+            if isinstance(segments_path, SegmentList):
                 self.segments = segments_path
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
-- 
2.43.0


From ff86f21fa6e0dd8d0f0b3b84fab5a69f61d7dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 020/174] fix: sequential audio reader reads all remaining
 segments

---
 hyperion/io/audio_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 91718a0..fc3a466 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -220,7 +220,8 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            num_items = len(self.segments) if self.with_segments else len(self.scp)
+            num_records = num_items - self.cur_item
 
         keys = []
         data = []
-- 
2.43.0


From 0c456724aa4c2a378f6f182c965bb9c6092b7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 021/174] fix: whitening, PCA and LDA load with the options
 they were saved with

---
 hyperion/transforms/cent_whiten.py | 4 +++-
 hyperion/transforms/lda.py         | 4 +++-
 hyperion/transforms/pca.py         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..491dff3 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,9 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
 
     
     
diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..37730e8 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,9 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], lda_dim=config['lda_dim'],
+                   update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
 
         
     # @classmethod
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..c5517ca 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,9 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'],
+                   update_mu=config['update_mu'],
+                   update_T=config['update_t'], name=config['name'])
     
 
     
-- 
2.43.0


From d1ee54efa6a35ea1a836d58bb692ce21d1786c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 022/174] fix: GaussCalibration files can be loaded

---
 hyperion/calibration/gauss_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..70f083d 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -75,6 +75,6 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
 
     
-- 
2.43.0


From a74fe564b4378ff3edffb9a5bf783c023b5b6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 023/174] fix: Gaussian and GMM files can be saved and loaded

---
 hyperion/pdfs/core/normal.py           | 2 +-
 hyperion/pdfs/core/normal_diag_cov.py  | 2 +-
 hyperion/pdfs/mixtures/gmm.py          | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..110ce6e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -207,7 +207,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..7575143 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..b634da9 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -250,7 +250,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..6d1f4a1 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -249,7 +249,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From bb183ea92d456d8d81409fe034f985fc17b91d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 024/174] fix: JFATotal.is_init takes self

---
 hyperion/pdfs/jfa/jfa_total.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/jfa/jfa_total.py b/hyperion/pdfs/jfa/jfa_total.py
index dfc746c..510d4a2 100644
--- a/hyperion/pdfs/jfa/jfa_total.py
+++ b/hyperion/pdfs/jfa/jfa_total.py
@@ -37,7 +37,7 @@ class JFATotal(PDF):
     
         
     @property
-    def is_init():
+    def is_init(self):
         if self._is_init:
             return True
         if self.T is not None:
-- 
2.43.0


From 74a00cff53ba3a41585dba025a3d960cfe33232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 025/174] fix: SbSw keeps the statistics it is given and can be
 loaded

---
 hyperion/transforms/sb_sw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From a569181fc23da782e85cb69539a555360ded8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 026/174] fix: LinearSVMC keeps its bias when it is saved and
 loaded

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..5bec0be 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -51,7 +51,7 @@ class LinearSVMC(HypModel):
             self.svm.coef_ = A.T
 
         if b is not None:
-            self.svm.intercept_ = b
+            self.svm.intercept_ = b/bias_scaling
 
 
     @property
-- 
2.43.0


From 13508021b3859921b1d0f1f50fffc15e6f0e2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 027/174] fix: transform chains with a name load under the
 names they were saved with

---
 hyperion/transforms/transform_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..b37c460 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -75,12 +75,16 @@ class TransformList(HypModel):
     @classmethod
     def load_params(cls, f, config):
         config_ts = config['transforms']
+        name = config['name']
         transforms = []
         for i in xrange(len(config_ts)):
             config_t = config_ts[str(i)]
             logging.debug(config_t)
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
+            if name is not None:
+                # the constructor adds the name of the list back
+                t.name = t.name[len(name)+1:]
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        return cls(transforms, name=name)
             
-- 
2.43.0


From 155f3d092efce074ace2ca8bf36c2359246bfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 028/174] fix: ModelLoader can be imported

---
 hyperion/model_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/model_loader.py b/hyperion/model_loader.py
index 165df87..617ce86 100644
--- a/hyperion/model_loader.py
+++ b/hyperion/model_loader.py
@@ -29,7 +29,7 @@ class ModelLoader(object):
                    'NAP': NAP,
                    'SbSw': SbSw,
                    'MVN': MVN,
-                   'TransformList', TransformList}
+                   'TransformList': TransformList}
         return obj_dict
         
     
-- 
2.43.0


From 53ec434570d3c462e01e9dabc8e06c3152374221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 029/174] fix: pipelines with a name load under the names they
 were saved with

---
 hyperion/pipeline/pipeline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperion/pipeline/pipeline.py b/hyperion/pipeline/pipeline.py
index ab58940..4c4489e 100644
--- a/hyperion/pipeline/pipeline.py
+++ b/hyperion/pipeline/pipeline.py
@@ -62,12 +62,16 @@ class Pipeline(HypModel):
     @classmethod
     def load_params(cls, f, config):
         config_ts = config['transforms']
+        name = config['name']
         transforms = []
         for i in xrange(len(config_ts)):
             config_t = config_ts[str(i)]
             logging.debug(config_t)
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
+            if name is not None:
+                # the constructor adds the name of the list back
+                t.name = t.name[len(name)+1:]
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        return cls(transforms, name=name)
             
-- 
2.43.0


From 155d6ce4b9fee6d3037fa9c3073f38a33e32d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 030/174] fix: ModelLoader knows diagonal Gaussians and GMMs by
 their class name

---
 hyperion/model_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/model_loader.py b/hyperion/model_loader.py
index 617ce86..04eaa66 100644
--- a/hyperion/model_loader.py
+++ b/hyperion/model_loader.py
@@ -17,6 +17,8 @@ class ModelLoader(object):
     @staticmethod
     def get_object():
         obj_dict={ 'DiagNormal': DiagNormal,
+                   'NormalDiagCov': NormalDiagCov,
+                   'GMMDiagCov': GMMDiagCov,
                    'Normal': Normal,
                    'DiagGMM': DiagGMM,
                    'GMM': GMM,
-- 
2.43.0


From 1842783612cae974197141ec595abd55f7478d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 031/174] fix: FoldList.save writes to its file

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..fdd76db 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for n,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (n,sep,k))
 
 
     @classmethod
-- 
2.43.0


From 1e458e960573f976b0dcb5d4155f799c0876afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 032/174] fix: SCPList.merge keeps offsets and ranges when some
 lists have none

---
 hyperion/utils/scp_list.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 49e3348..31d975f 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -288,15 +288,20 @@ class SCPList(object):
         key = np.concatenate(tuple(key_list))
         file_path = np.concatenate(tuple(file_list))
 
-        if offset_list[0] is None:
+        if all(o is None for o in offset_list):
             offset = None
+        elif any(o is None for o in offset_list):
+            raise ValueError('Cannot merge lists with and without offsets')
         else:
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if all(r is None for r in range_list):
             range_spec = None
         else:
-            range_spec = np.concatenate(tuple(range_list))
+            # lists without ranges read the whole records
+            range_spec = np.concatenate(tuple(
+                np.zeros((len(k), 2), dtype=np.int64) if r is None else r
+                for k, r in zip(key_list, range_list)))
 
         return cls(key, file_path, offset, range_spec)
 
-- 
2.43.0


From 92c16cb0b1f87cf123f0e91a76785301a7e98387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 033/174] fix: cohort evaluation sets take the keys of the
 cohort list

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..9deacb8 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From 3d8e0ba7a9f132d1d7b2b00059fe1f9f9ddaca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 034/174] fix: eval-plda-nvs1 passes the PLDA type to the
 loader

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..8fffee3 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -29,7 +29,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              model_file, score_file, plda_type, pool_method, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From ddc52e3a8a279cffc5cbae51525da0e1dfa5b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 035/174] fix: script reader goes back to records at offset 0
 of the open archive

---
 hyperion/io/ark_data_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 4b46109..b228113 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -73,8 +73,7 @@ class SequentialArkDataReader(SequentialDataReader):
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
 
-        if offset > 0:
-            self._seek(offset)
+        self._seek(0 if offset is None else offset)
         
 
             
-- 
2.43.0


From a8bdf72013b62bd3bb23672f7123d10e0878c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 036/174] fix: compute-mfcc-feats closes its output and reports
 close errors

---
 hyperion/bin/compute-mfcc-feats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/bin/compute-mfcc-feats.py b/hyperion/bin/compute-mfcc-feats.py
index 10a1e52..e597bf4 100755
--- a/hyperion/bin/compute-mfcc-feats.py
+++ b/hyperion/bin/compute-mfcc-feats.py
@@ -39,6 +39,7 @@ def compute_mfcc_feats(input_path, output_path,
                         compress=compress,
                         compression_method=compression_method)
 
+    f_num_frames = None
     if write_num_frames is not None:
         f_num_frames = open(write_num_frames, 'w')
     
@@ -61,6 +62,7 @@ def compute_mfcc_feats(input_path, output_path,
 
         mfcc.reset()
             
+    writer.close()
     if write_num_frames is not None:
         f_num_frames.close()
     
-- 
2.43.0


From d9992b13e3f6df88b770c9d74210bc33c82dccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 037/174] fix: merge-h5-files decodes compressed inputs and
 closes its output

---
 hyperion/io/h5_merger.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/hyperion/io/h5_merger.py b/hyperion/io/h5_merger.py
index cb491fe..b89ceb1 100644
--- a/hyperion/io/h5_merger.py
+++ b/hyperion/io/h5_merger.py
@@ -10,8 +10,8 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from .hyp_data_reader import HypDataReader as HR
-from .hyp_data_writer import HypDataWriter as HW
+from .h5_data_reader import SequentialH5FileDataReader as HR
+from .h5_data_writer import H5DataWriter as HW
 
 
 class H5Merger(object):
@@ -24,24 +24,18 @@ class H5Merger(object):
         self.chunk_size = chunk_size
 
     def merge(self):
-        hw = HW(self.output_file)
-        for h5_file in self.input_files:
-            self._merge_file(hw, h5_file)
+        with HW(self.output_file) as hw:
+            for h5_file in self.input_files:
+                self._merge_file(hw, h5_file)
 
 
     def _merge_file(self, hw, input_file):
-        hr = HR(input_file)
-        datasets = hr.get_datasets()
-        if self.chunk_size is None:
-            chunk = len(datasets)
-        else:
-            chunk = self.chunk_size
-        
-        for first in xrange(0, len(datasets), chunk):
-            last = min(first+chunk, len(datasets))
-            keys = datasets[first:last]
-            x = hr.read(keys)
-            hw.write(keys, '', x)
+        # chunk=0 reads the whole file
+        chunk = 0 if self.chunk_size is None else self.chunk_size
+        with HR(input_file) as hr:
+            while not hr.eof():
+                keys, x = hr.read(chunk)
+                hw.write(keys, x)
     
     
     
-- 
2.43.0


From 779a97f466434eca7a2c0f1f6da9a7189bfb77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 038/174] fix: empty script lists can be read

---
 hyperion/io/rw_specifiers.py | 6 ++++--
 hyperion/utils/scp_list.py   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..39e74a9 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -338,8 +338,10 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(' ')[1].split('[')[0].split(':')
-                    if len(scp) == 1:
+                    line = f.readline().strip()
+                    # an empty list, e.g. the output of a job without work, fits any type
+                    scp = line.split(' ')[1].split('[')[0].split(':') if line else []
+                    if len(scp) <= 1:
                         archive_type = ArchiveType.H5
                     else:
                         archive_type = ArchiveType.ARK
diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 31d975f..946bd77 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -194,7 +194,7 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
+        if len(file_offset) > 0 and len(file_offset[0]) == 2:
             offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
             if -1 in offset:
                 raise ValueError('Missing data position for %s' % f[0])
-- 
2.43.0


From d076ade2061bd64225c8ae311ea966435c2f8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 039/174] fix: SCPList.merge accepts empty lists

---
 hyperion/utils/scp_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 946bd77..aaa687f 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -280,6 +280,9 @@ class SCPList(object):
         Returns:
           SCPList object concatenation the scp_lists.
         """
+        # an empty list does not tell if it has offsets
+        scp_lists = [item for item in scp_lists if len(item.key) > 0] or scp_lists
+
         key_list = [item.key for item in scp_lists]
         file_list = [item.file_path for item in scp_lists]
         offset_list = [item.offset for item in scp_lists]
-- 
2.43.0


From 94415f5ae067ce69c19f1658e37d799204abad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 040/174] fix: sequential h5 reader returns records whose keys
 have slashes

---
 hyperion/io/h5_data_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index bdd3b6e..a1532d8 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -166,7 +166,10 @@ class SequentialH5FileDataReader(SequentialH5DataReader):
         super(SequentialH5FileDataReader, self).__init__(
             file_path, permissive=False, **kwargs)
         self._open_archive(self.file_path)
-        self._keys = list(self.f.keys())
+        # keys with slashes are datasets inside groups
+        self._keys = []
+        self.f.visititems(
+            lambda key, obj: self._keys.append(key) if isinstance(obj, h5py.Dataset) else None)
         if self.num_parts > 1:
             if self.split_by_key:
                 self._keys, _ = split_list_group_by_key(
-- 
2.43.0


From 8f51e5df36a58905129f90a92277b4a070452f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 041/174] fix: AudioWriter refuses keys that map to the file of
 another key

---
 hyperion/io/audio_writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperion/io/audio_writer.py b/hyperion/io/audio_writer.py
index 7e00199..0ff8502 100644
--- a/hyperion/io/audio_writer.py
+++ b/hyperion/io/audio_writer.py
@@ -57,6 +57,8 @@ class AudioWriter(object):
         else:
             self.f_script = None
 
+        self._file_keys = {}    # output file -> key
+
         
     def __enter__(self):
         """Function required when entering contructions of type
@@ -105,6 +107,9 @@ class AudioWriter(object):
             assert is_token(key_i), 'Token %s not valid' % key_i
             file_basename = re.sub('/', '-', key_i)
             output_file = '%s/%s.%s' % (self.output_path, file_basename, self.audio_format)
+            if self._file_keys.setdefault(output_file, key_i) != key_i:
+                raise ValueError('keys %s and %s have the same output file %s' % (
+                    self._file_keys[output_file], key_i, output_file))
             fs_i = fs[i] if fs_is_list else fs
             data_i = data[i].astype(dtype, copy=False)
             sf.write(output_file, data_i, fs_i, subtype=self.subtype)
-- 
2.43.0


From 48287075f39377ca1cbd4e682c9fcc2fe19cff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 042/174] fix: generator queues survive a stop that does not
 wait for the workers or the consumer

---
 hyperion/io/queues.py    | 28 ++++++++++++++++++----------
 hyperion/utils/queues.py | 28 ++++++++++++++++++----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 11d6c4b..615d1b6 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -208,16 +208,18 @@ class GeneratorQueue(SequenceQueue):
                 (when full, threads could block on `put()`)
         """
 
-        def data_generator_task():
-            while not self._stop_event.is_set():
+        def data_generator_task(data_queue, stop_event):
+            # the worker keeps its own queue and event, the ones in self may be
+            # replaced when stop() does not wait for it
+            while not stop_event.is_set():
                 try:
-                    if self._use_multiprocessing or self.queue.qsize() < max_queue_size:
+                    if self._use_multiprocessing or data_queue.qsize() < max_queue_size:
                         generator_output = next(self._generator)
-                        self.queue.put(generator_output)
+                        data_queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
                 except Exception:
-                    self._stop_event.set()
+                    stop_event.set()
                     raise
 
         try:
@@ -233,12 +235,16 @@ class GeneratorQueue(SequenceQueue):
                     # Reset random seed else all children processes
                     # share the same seed
                     np.random.seed(self.random_seed)
-                    thread = multiprocessing.Process(target=data_generator_task)
+                    thread = multiprocessing.Process(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                     thread.daemon = True
                     if self.random_seed is not None:
                         self.random_seed += 1
                 else:
-                    thread = threading.Thread(target=data_generator_task)
+                    thread = threading.Thread(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                 self._threads.append(thread)
                 thread.start()
         except:
@@ -282,9 +288,11 @@ class GeneratorQueue(SequenceQueue):
         # Returns
             A generator
         """
-        while self.is_running():
-            if not self.queue.empty():
-                inputs = self.queue.get()
+        # stop() removes them from self, maybe in other thread
+        data_queue, stop_event = self.queue, self._stop_event
+        while stop_event is not None and not stop_event.is_set():
+            if not data_queue.empty():
+                inputs = data_queue.get()
                 if inputs is not None:
                     yield inputs
             else:
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 11d6c4b..615d1b6 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -208,16 +208,18 @@ class GeneratorQueue(SequenceQueue):
                 (when full, threads could block on `put()`)
         """
 
-        def data_generator_task():
-            while not self._stop_event.is_set():
+        def data_generator_task(data_queue, stop_event):
+            # the worker keeps its own queue and event, the ones in self may be
+            # replaced when stop() does not wait for it
+            while not stop_event.is_set():
                 try:
-                    if self._use_multiprocessing or self.queue.qsize() < max_queue_size:
+                    if self._use_multiprocessing or data_queue.qsize() < max_queue_size:
                         generator_output = next(self._generator)
-                        self.queue.put(generator_output)
+                        data_queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
                 except Exception:
-                    self._stop_event.set()
+                    stop_event.set()
                     raise
 
         try:
@@ -233,12 +235,16 @@ class GeneratorQueue(SequenceQueue):
                     # Reset random seed else all children processes
                     # share the same seed
                     np.random.seed(self.random_seed)
-                    thread = multiprocessing.Process(target=data_generator_task)
+                    thread = multiprocessing.Process(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                     thread.daemon = True
                     if self.random_seed is not None:
                         self.random_seed += 1
                 else:
-                    thread = threading.Thread(target=data_generator_task)
+                    thread = threading.Thread(
+                        target=data_generator_task,
+                        args=(self.queue, self._stop_event))
                 self._threads.append(thread)
                 thread.start()
         except:
@@ -282,9 +288,11 @@ class GeneratorQueue(SequenceQueue):
         # Returns
             A generator
         """
-        while self.is_running():
-            if not self.queue.empty():
-                inputs = self.queue.get()
+        # stop() removes them from self, maybe in other thread
+        data_queue, stop_event = self.queue, self._stop_event
+        while stop_event is not None and not stop_event.is_set():
+            if not data_queue.empty():
+                inputs = data_queue.get()
                 if inputs is not None:
                     yield inputs
             else:
-- 
2.43.0


From 60a21222ad73c96fad146848af0fa9509fcfa94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 043/174] fix: generator queues deliver all the data of
 generators that end

---
 hyperion/io/queues.py    | 12 ++++++++++--
 hyperion/utils/queues.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 615d1b6..b25a2e4 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -214,7 +214,11 @@ class GeneratorQueue(SequenceQueue):
             while not stop_event.is_set():
                 try:
                     if self._use_multiprocessing or data_queue.qsize() < max_queue_size:
-                        generator_output = next(self._generator)
+                        try:
+                            generator_output = next(self._generator)
+                        except StopIteration:
+                            # no more data, the data in the queue is still good
+                            break
                         data_queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
@@ -289,11 +293,15 @@ class GeneratorQueue(SequenceQueue):
             A generator
         """
         # stop() removes them from self, maybe in other thread
-        data_queue, stop_event = self.queue, self._stop_event
+        data_queue, stop_event, threads = self.queue, self._stop_event, self._threads
         while stop_event is not None and not stop_event.is_set():
+            # the workers end when the generator has no more data
+            finished = not any(thread.is_alive() for thread in threads)
             if not data_queue.empty():
                 inputs = data_queue.get()
                 if inputs is not None:
                     yield inputs
+            elif finished:
+                break
             else:
                 time.sleep(self.wait_time)
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 615d1b6..b25a2e4 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -214,7 +214,11 @@ class GeneratorQueue(SequenceQueue):
             while not stop_event.is_set():
                 try:
                     if self._use_multiprocessing or data_queue.qsize() < max_queue_size:
-                        generator_output = next(self._generator)
+                        try:
+                            generator_output = next(self._generator)
+                        except StopIteration:
+                            # no more data, the data in the queue is still good
+                            break
                         data_queue.put(generator_output)
                     else:
                         time.sleep(self.wait_time)
@@ -289,11 +293,15 @@ class GeneratorQueue(SequenceQueue):
             A generator
         """
         # stop() removes them from self, maybe in other thread
-        data_queue, stop_event = self.queue, self._stop_event
+        data_queue, stop_event, threads = self.queue, self._stop_event, self._threads
         while stop_event is not None and not stop_event.is_set():
+            # the workers end when the generator has no more data
+            finished = not any(thread.is_alive() for thread in threads)
             if not data_queue.empty():
                 inputs = data_queue.get()
                 if inputs is not None:
                     yield inputs
+            elif finished:
+                break
             else:
                 time.sleep(self.wait_time)
-- 
2.43.0


From d433f2b0f2798b47dd24a9c86eb0e4f91b22fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 044/174] fix: sums of sufficient statistics add all the parts

---
 hyperion/pdfs/core/exp_family.py             | 8 ++++----
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..5d7cb15 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..f50c1d3 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -407,11 +407,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From 11acbe3c4602d04d760d32c87a143e2ca40fc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 045/174] fix: weighted statistics of exponential families do
 not change the input

---
 hyperion/pdfs/core/exp_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index 5d7cb15..bd04fee 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x * sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
-- 
2.43.0


From db7b6997f037173683a5813974225fa06632f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 046/174] fix: class statistics do not change the posteriors
 they are given

---
 hyperion/pdfs/plda/plda_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..1550f35 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = p_theta*scal_factor
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
-- 
2.43.0


From a69318001cdf55f65e4a3b366f237a7a6768c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 047/174] fix: sorted-time statistics work for any number of
 windows

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index f50c1d3..d9ac40a 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -299,8 +299,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -335,8 +333,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
@@ -347,7 +343,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
-- 
2.43.0


From 77ed5ad64b5a9fe9c69b136464066d4d9dc7fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 048/174] fix: statistics from a generator queue

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 47 +++++++++++---------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index d9ac40a..5db73b3 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import itertools
+
 import numpy as np
 
 from abc import ABCMeta, abstractmethod
@@ -14,6 +16,7 @@ from abc import ABCMeta, abstractmethod
 from ...hyp_defs import float_cpu
 from ...utils.math import softmax, logsumexp
 from ...utils.queues import GeneratorQueue
+from ...utils.multithreading import ThreadSafeIter
 from ..core import PDF
 
 
@@ -92,18 +95,17 @@ class ExpFamilyMixture(PDF):
                       val_data=None, val_steps=0, 
                       max_queue_size=10, workers=1, use_multiprocessing=False):
 
-        do_validation = bool(validation_data)
-        val_gen = (hasattr(validation_data, 'next') or
-                   hasattr(validation_data, '__next__') or
-                   isinstance(validation_data, Sequence))
-        if val_gen and not validation_steps:
+        do_validation = val_data is not None
+        val_gen = (hasattr(val_data, 'next') or
+                   hasattr(val_data, '__next__'))
+        if val_gen and not val_steps:
             raise ValueError('When using a generator for validation data, '
                              'you must specify a value for '
-                             '`validation_steps`.')
+                             '`val_steps`.')
 
         if do_validation and not val_gen:
-            x, u_x_val, sample_weight_val = self.tuple2data(val_data)
-            log_h_val = self.accum_log_h(x, sample_weight_val)
+            x_val, u_x_val, sample_weight_val = self.tuple2data(val_data)
+            log_h_val = self.accum_log_h(x_val, sample_weight_val)
         
         elbo = np.zeros((epochs,), dtype=float_cpu())
         elbo_val = np.zeros((epochs,), dtype=float_cpu())
@@ -113,23 +115,25 @@ class ExpFamilyMixture(PDF):
                 max_queue_size=max_queue_size, workers=workers,
                 use_multiprocessing=use_multiprocessing)
             
-            self.Mstep(N, u_x)
+            num_samples = np.sum(N)
             elbo[epoch]=self.elbo(None, N=N, u_x=u_x, log_h=log_h)
+            self.Mstep(N, u_x)
         
-            if val_data is not None:
+            if do_validation:
                 if val_gen:
                     N, u_x, log_h_val = self.Estep_generator(
-                        generator, train_steps, return_log_h = True,
+                        val_data, val_steps, return_log_h = True,
                         max_queue_size=max_queue_size, workers=workers,
                         use_multiprocessing=use_multiprocessing)
                 else:
                     N, u_x = self.Estep(x_val, u_x_val, sample_weight_val)
+                num_samples_val = np.sum(N)
                 elbo_val[epoch] = self.elbo(None, N=N, u_x=u_x, log_h=log_h_val)
 
-        if x_val is None:
-            return elbo, elbo/x.shape[0]
+        if not do_validation:
+            return elbo, elbo/num_samples
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/num_samples, elbo_val, elbo_val/num_samples_val
 
         
     
@@ -362,15 +366,18 @@ class ExpFamilyMixture(PDF):
 
 
     
-    def Estep_generator(self, generator, num_steps, return_log_h,
-                        max_queue_size=10, workers=1, use_multiprocessin=False):
+    def Estep_generator(self, generator, num_steps, return_log_h=False,
+                        max_queue_size=10, workers=1, use_multiprocessing=False):
         wait_time = 0.01 # in secs
+        # the workers read ahead, but not data of the next pass
+        data = ThreadSafeIter(itertools.islice(
+            (d for d in generator if d is not None), num_steps))
         queue = None
         N = None
         acc_u_x = None
         log_h = 0
         try:
-            queue = GeneratorQueue(generator,
+            queue = GeneratorQueue(data,
                                    use_multiprocessing=use_multiprocessing,
                                    wait_time=wait_time)
             queue.start(workers=workers, max_queue_size=max_queue_size)
@@ -382,7 +389,7 @@ class ExpFamilyMixture(PDF):
                 x, u_x, sample_weight = self.tuple2data(data)
                 N_i, u_x_i = self.Estep(x, u_x, sample_weight)
                 if return_log_h:
-                    log_h += self.accum_log_h(x)
+                    log_h += self.accum_log_h(x, sample_weight)
                 if cur_step == 0:
                     N = N_i
                     acc_u_x = u_x_i
@@ -390,8 +397,8 @@ class ExpFamilyMixture(PDF):
                     N += N_i
                     acc_u_x += u_x_i
         finally:
-            if enqueuer is not None:
-                enqueuer.stop()
+            if queue is not None:
+                queue.stop()
                 
         if return_log_h:
             return N, acc_u_x, log_h
-- 
2.43.0


From 592ae28faf70b9e04758d3e55ae1b984bf36e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 049/174] fix: models can be saved in the current directory

---
 hyperion/hyp_model.py         | 2 +-
 hyperion/torch/torch_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..03697d6 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -57,7 +57,7 @@ class HypModel(object):
     @abstractmethod
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
         with h5py.File(file_path,'w') as f:
             config=self.to_json()
diff --git a/hyperion/torch/torch_model.py b/hyperion/torch/torch_model.py
index bb3e19e..fcc3d0f 100644
--- a/hyperion/torch/torch_model.py
+++ b/hyperion/torch/torch_model.py
@@ -22,7 +22,7 @@ class TorchModel(nn.Module):
 
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
 
         config = self.get_config()
-- 
2.43.0


From b3a4785795188a5f6d0befaa83ca959c30e2a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 050/174] fix: batch generators draw new samples in every epoch

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..27430eb 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -292,8 +292,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..19544b8 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
-- 
2.43.0


From 16ff0e35140e6da40af9a480a0492284313ae7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 051/174] fix: batch generator V1 can read one part of the list

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 27430eb..9ecc3a6 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
-- 
2.43.0


From 34728f42eab13449c94e826a951e0d5a45f418fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 052/174] fix: batch generator V1 keeps the lengths in step
 with the pruned list

---
 hyperion/generators/sequence_batch_generator_v1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 9ecc3a6..810fcf3 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -160,7 +160,8 @@ class SequenceBatchGeneratorV1(object):
     def _prune_min_length(self, min_length):
         keep_idx = self.seq_lengths >= min_length
         self.u2c = self.u2c.filter_index(keep_idx)
-        self._seq_lengths = None
+        self._seq_lengths = self.seq_lengths[keep_idx]
+        self._init_seq_lengths = self._seq_lengths
 
 
         
@@ -205,8 +206,8 @@ class SequenceBatchGeneratorV1(object):
         # self.u2c.save('tmp.u2c')
         # self.u2c.save('/tmp.u2c')
         if self._init_seq_lengths is not None:
-            self._init_seq_legths = self._init_seq_lengths[idx]
-            self._seq_lengths = self._init_seq_legths
+            self._init_seq_lengths = self._init_seq_lengths[idx]
+            self._seq_lengths = self._init_seq_lengths
         
 
             
-- 
2.43.0


From be78d515a17a490c2a64899977f2bab34f17fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 053/174] fix: sequential batches repeat the pass over the list
 when the epoch has several

---
 hyperion/generators/sequence_batch_generator_v1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 810fcf3..7f5fc7b 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -363,6 +363,9 @@ class SequenceBatchGeneratorV1(object):
         first_frames = []
         count = 0
         while count < self.batch_size:
+            if np.all(self.cur_subseq == self.num_subseqs):
+                # all the list has been read, starts a new pass
+                self.cur_subseq[:] = 0
             key = self.u2c.key[self.cur_seq]
             first_frame = self.cur_frame[self.cur_seq]
             full_seq_length = self.seq_lengths[self.cur_seq]
-- 
2.43.0


From 702ac760155a8641aacea1e3fc49aa9a10463b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 054/174] fix: sequential batches of sequences shorter than the
 minimum length

---
 hyperion/generators/sequence_batch_generator_v1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 7f5fc7b..98554a5 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -380,12 +380,12 @@ class SequenceBatchGeneratorV1(object):
                 max_seq_length = min(
                     max(self.min_seq_length,
                         remainder_seq_length-self.min_seq_length),
-                    self.max_seq_length)
+                    self.max_seq_length, remainder_seq_length)
                 min_seq_length = min(remainder_seq_length, self.min_seq_length)
                 seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
-                self.cur_frame[self.cur_seq] = min(
+                self.cur_frame[self.cur_seq] = max(0, min(
                     full_seq_length - self.min_seq_length,
-                    first_frame + seq_length - self.seq_overlap)
+                    first_frame + seq_length - self.seq_overlap))
             
             keys.append(key)
             seq_lengths.append(seq_length)
-- 
2.43.0


From 7fd6cb696879a89c4c9c3dcd7ab28cec0b6b7236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:22 +0000
Subject: [PATCH 055/174] fix: batch generator V2 returns the one-hot utterance
 labels

---
 hyperion/generators/sequence_batch_generator_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 19544b8..777c3b5 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -243,8 +243,8 @@ class SequenceBatchGeneratorV2(object):
 
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
-            _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            _, utt_ids = np.unique(utt_idx[:len(keys)], return_inverse=True)
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From fd5caae61ebb4d9c0f90e89a2adfcce3215a078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 056/174] fix: batches of full sequences go on at the start of
 the list

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 98554a5..99f365b 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -322,7 +322,7 @@ class SequenceBatchGeneratorV1(object):
         
         if len(keys) < self.batch_size:
             delta = self.batch_size - len(keys)
-            keys += self.u2c.key[:delta]
+            keys += list(self.u2c.key[:delta])
             self.cur_seq = delta
             assert len(keys) == self.batch_size
 
-- 
2.43.0


From 4d555acc6ea0f6f1b35122c37755110c9a665e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 057/174] fix: TrainValEvalList saves and loads the names of
 the parts

---
 hyperion/utils/train_val_eval_list.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..9895e39 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -160,10 +160,10 @@ class TrainValEvalList(object):
         """
         with open(file_path, 'w') as f:
             for p,k in zip(self.part, self.key):
-                if self.part_names is None:
+                if self.part_names is None or p < 0:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -183,12 +183,14 @@ class TrainValEvalList(object):
             fields = [line.rstrip().split(sep=sep, maxsplit=2) for line in f]
         key = np.asarray([f[0] for f in fields])
         part = np.asarray([int(f[1]) for f in fields], dtype=int)
-        if len(fields[0]) == 2:
+        num2name = {}
+        for f in fields:
+            if len(f) > 2:
+                num2name.setdefault(int(f[1]), f[2])
+        if len(num2name) == 0:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
-            _, part_idx = np.unique(part, return_index=True)
-            part_names = part_names[part_idx]
+            part_names = [num2name[i] for i in xrange(np.max(part)+1)]
             
         return cls(key, part, part_names=part_names)
 
-- 
2.43.0


From cc412237ef9df774b46b3eea4aa57c41158114f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 058/174] fix: TrainValEvalList.get_part returns the keys of
 the part

---
 hyperion/utils/train_val_eval_list.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 9895e39..ee25c0a 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -127,12 +127,10 @@ class TrainValEvalList(object):
           part: Part number to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements in the part
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        return self.key[self.get_part_idx(part)]
 
 
     
-- 
2.43.0


From 9da9ba1ae15ff601db4c4987528a0ef85b5f7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 059/174] fix: FoldList has a length

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index fdd76db..d8106ac 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return int(self.num_folds)
 
 
     @property
-- 
2.43.0


From 7e6aa18b933a03c6911955432f60cca794171e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 060/174] fix: class reader makes room for all the sub-classes

---
 hyperion/helpers/vector_class_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..32618e0 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -159,7 +159,8 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        max_subclass = int(np.ceil((np.max(num_spc) - max_spc)/shift + 1))
+        new_indx = np.zeros(max_spc*max_subclass*num_classes, dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
-- 
2.43.0


From 041c4ff2252ddcd816ec8eb8eb6653c541f380ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 061/174] fix: class reader options for class splitting

---
 hyperion/helpers/vector_class_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 32618e0..921aab4 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -149,7 +149,7 @@ class VectorClassReader(object):
     def _split_classes(u2c, min_spc, max_spc, mode='sequential', overlap=0, rng=None):
         if max_spc is None:
             return u2c
-        if mode == 'random_1part':
+        if mode in ('random_1part', 'random_1subclass'):
             return VectorClassReader._filter_by_spc(u2c, min_spc, max_spc, 'random', rng)
 
         _, class_ids, num_spc = np.unique(u2c.info, return_inverse=True, return_counts=True)
@@ -244,7 +244,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -255,7 +255,7 @@ class VectorClassReader(object):
                             default='random', type=str.lower,
                             choices = ['sequential', 'random', 'random_1subclass'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0


From 5ea214722796885fcce510213a08a1eaac3cbad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 062/174] fix: learning rate schedulers run without warm-up
 steps

---
 hyperion/torch/lr_schedulers/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/lr_scheduler.py b/hyperion/torch/lr_schedulers/lr_scheduler.py
index ff59dd5..063aadd 100644
--- a/hyperion/torch/lr_schedulers/lr_scheduler.py
+++ b/hyperion/torch/lr_schedulers/lr_scheduler.py
@@ -45,7 +45,7 @@ class LRScheduler(object):
 
     @property
     def in_warmup(self):
-        return self.last_batch <= self.warmup_steps
+        return self.warmup_steps > 0 and self.last_batch <= self.warmup_steps
     
 
     def state_dict(self):
-- 
2.43.0


From edb3038951b2e088b96fe193f32c492e1465fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 063/174] fix: trainer runs without extra metrics

---
 hyperion/torch/torch_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index d89aeaa..64eb0a4 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -40,7 +40,7 @@ class TorchTrainer(object):
 
         self.lr_scheduler = lr_scheduler
         
-        self.metrics = metrics
+        self.metrics = ODict() if metrics is None else metrics
         if device is None:
             device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
         self.device = device
-- 
2.43.0


From d1e3b501d3b674d731e313c56a5d0e3de9db5453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 064/174] fix: training checkpoints appear complete or not at
 all

---
 hyperion/torch/torch_trainer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index 64eb0a4..cbb2fa1 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -48,8 +48,8 @@ class TorchTrainer(object):
         
     def fit(self, train_data, val_data=None):
 
-        if not os.path.exists(self.exp_path):
-            os.makedirs(self.exp_path)
+        if not os.path.isdir(self.exp_path):
+            os.makedirs(self.exp_path, exist_ok=True)
         
         val_logs = {}
         self.loggers.on_train_begin(epochs=self.epochs)
@@ -166,7 +166,10 @@ class TorchTrainer(object):
         checkpoint = self.checkpoint(logs)
         file_path = '%s/model_ep%04d.pth' % (self.exp_path, self.cur_epoch)
             
-        torch.save(checkpoint, file_path)
+        # if the job dies while writing, the last complete checkpoint is still the last one
+        tmp_path = file_path + '.tmp'
+        torch.save(checkpoint, tmp_path)
+        os.replace(tmp_path, file_path)
 
 
     def load_checkpoint(self, file_path):
-- 
2.43.0


From 90cbf7f9d9bade84bdcfec036d937ae34ee9cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 065/174] fix: training log keeps one row per epoch when
 training is resumed

---
 hyperion/torch/loggers/csv_logger.py | 59 ++++++++++++++++++++++------
 hyperion/torch/torch_trainer.py      |  7 ++--
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/hyperion/torch/loggers/csv_logger.py b/hyperion/torch/loggers/csv_logger.py
index 4ad551a..e22137b 100644
--- a/hyperion/torch/loggers/csv_logger.py
+++ b/hyperion/torch/loggers/csv_logger.py
@@ -22,6 +22,8 @@ class CSVLogger(Logger):
        file_path: filenane of csv file.
        sep: column separator for csv file
        append: False, overwrite existing file, True, appends.
+               Incomplete rows left by an interrupted job, and rows of epochs
+               later than the one where training starts, are removed.
     """
     def __init__(self, file_path, sep=',', append=False):
         super(CSVLogger, self).__init__()
@@ -38,18 +40,46 @@ class CSVLogger(Logger):
     def on_train_begin(self, logs=None, **kwargs):
 
         file_dir = os.path.dirname(self.file_path) 
-        if not os.path.exists(file_dir):
-            os.makedirs(file_dir)
-        
-        if self.append:
-            if os.path.exist(self.file_path):
-                with open(self.file_path, 'r') as f:
-                    self.append_header = len(f.readline())==0
+        if file_dir and not os.path.isdir(file_dir):
+            os.makedirs(file_dir, exist_ok=True)
+
+        self._close()
+        self.append_header = True
+        if self.append and os.path.exists(self.file_path):
+            self.append_header = not self._keep_rows(kwargs.get('epoch'))
 
         if self.append_header:
-            self.csv_file = open(self.file_path, 'w')
+            self.csv_file = open(self.file_path, 'w', newline='')
         else:
-            self.csv_file = open(self.file_path, 'a')
+            self.csv_file = open(self.file_path, 'a', newline='')
+
+
+    def _keep_rows(self, epoch=None):
+        """Leaves in the file the header and the complete rows up to a given epoch.
+
+        Args:
+           epoch: number of epochs done, if None all complete rows are kept.
+        Returns:
+           True if there are rows left in the file.
+        """
+        with open(self.file_path, 'r', newline='') as f:
+            lines = f.readlines()
+
+        rows = [row for row in lines if row.endswith('\n')]
+        if epoch is not None:
+            rows = rows[:1] + [row for row in rows[1:]
+                               if int(row.split(self.sep)[0]) <= epoch]
+
+        if len(rows) < 2:
+            return False
+
+        if len(rows) < len(lines):
+            tmp_path = self.file_path + '.tmp'
+            with open(tmp_path, 'w', newline='') as f:
+                f.writelines(rows)
+            os.replace(tmp_path, self.file_path)
+
+        return True
 
 
             
@@ -76,7 +106,14 @@ class CSVLogger(Logger):
 
         
     def on_train_end(self, logs=None, **kwargs):
-        self.csv_file.close()
-        self.writer = None
+        self._close()
+
+
+    def _close(self):
+        if self.csv_file is not None:
+            self.csv_file.close()
+        self.csv_file = None
+        self.csv_writer = None
+        self.log_keys = None
 
         
diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index cbb2fa1..1771a44 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -52,7 +52,7 @@ class TorchTrainer(object):
             os.makedirs(self.exp_path, exist_ok=True)
         
         val_logs = {}
-        self.loggers.on_train_begin(epochs=self.epochs)
+        self.loggers.on_train_begin(epochs=self.epochs, epoch=self.cur_epoch)
         for epoch in xrange(self.cur_epoch, self.epochs):
             
             self.loggers.on_epoch_begin(epoch, samples=len(train_data.dataset))
@@ -72,7 +72,8 @@ class TorchTrainer(object):
 
             self.save_checkpoint(logs)
 
-            
+        self.loggers.on_train_end()
+
             
     def train_epoch(self, data_loader):
 
@@ -136,7 +137,7 @@ class TorchTrainer(object):
 
     def _default_loggers(self):
         prog_log = ProgLogger(interval=10)
-        csv_log = CSVLogger(self.exp_path + '/train.log', append=self.cur_epoch>0)
+        csv_log = CSVLogger(self.exp_path + '/train.log', append=True)
         return LoggerList([prog_log, csv_log])
     
     
-- 
2.43.0


From 64d9f9b7b4575eb3094b3b3dd780fb760150bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 066/174] fix: cosine schedule starts at the initial rate and
 restarts on epoch boundaries

---
 hyperion/torch/lr_schedulers/cos_lr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 7a8aa61..8251afd 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -38,7 +38,7 @@ class CosineLR(LRScheduler):
     """
 
     def __init__(self, optimizer, T, T_mul=1, min_lr=0, warmup_steps=0,
-                 warm_restarts=False, gamma=1, last_restart=1, num_restarts = 0, 
+                 warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
         super(CosineLR, self).__init__(optimizer, min_lr, warmup_steps,
                                        last_epoch, last_batch, update_lr_on_batch)
@@ -79,7 +79,8 @@ class CosineLR(LRScheduler):
     def epoch_end_step(self, metrics=None):
         if self.last_epoch==0 and self.update_lr_on_batch and self.warm_restarts:
             # assures that T period is equal to integer number of epochs
-            self.T = math.ceil(self.T/self.last_batch)*self.last_batch
+            num_batches = self.last_batch + 1
+            self.T = math.ceil(self.T/num_batches)*num_batches
             logging.info('readjusting cos_lr T to %d' % (self.T))
 
 
-- 
2.43.0


From 0645960c90ca57847183cce39d355ab2b0f6368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 067/174] fix: AdamCosineLR can be used

---
 hyperion/torch/lr_schedulers/cos_lr.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 8251afd..f0405f5 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -89,24 +89,7 @@ class AdamCosineLR(CosineLR):
     def __init__(self, optimizer, T=1, T_mul=2, warmup_steps=0,
                  warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
-        super(AdamCosineLR, super).__init__(optimizer, T, T_mul, 0, warmup_steps,
-                 warm_restarts, last_restart, num_restarts, gamma,
-                 last_epoch, last_batch, update_lr_on_batch)
-
-
-    def get_lr(self, step):
-        x = step - self.last_restart
-        if x > self.T:
-            if self.warm_restarts:
-                self.last_restart = step
-                x = 0
-                self.T *= T_mul
-                self.num_restarts += 1
-            else:
-                return self.min_lrs
-
-        alpha = gamma ** self.num_restarts
-        r = math.pi/self.T
-            
-        return [alpha * base_lr * 0.5 (1 + math.cos(r * x))
-                for base_lr in self.base_lrs]
+        super(AdamCosineLR, self).__init__(
+            optimizer, T, T_mul, 0, warmup_steps,
+            warm_restarts, gamma, last_restart, num_restarts,
+            last_epoch, last_batch, update_lr_on_batch)
-- 
2.43.0


From d02fe732ec2a6f381d396f44ace4f751fe08643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 068/174] fix: exponential schedule honours update_lr_on_batch

---
 hyperion/torch/lr_schedulers/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/factory.py b/hyperion/torch/lr_schedulers/factory.py
index c84a730..bf144a6 100644
--- a/hyperion/torch/lr_schedulers/factory.py
+++ b/hyperion/torch/lr_schedulers/factory.py
@@ -31,7 +31,7 @@ class LRSchedulerFactory(object):
             return ExponentialLR(
                 optimizer, decay_rate, decay_steps, hold_steps,
                 min_lr=min_lr, warmup_steps=warmup_steps, 
-                update_lr_on_batch=False)
+                update_lr_on_batch=update_lr_on_batch)
 
         if lrsch_type == 'cos_lr':
             return CosineLR(optimizer, T, T_mul, min_lr=min_lr,
-- 
2.43.0


From 2a1c3e63b01fd973857104d59625e02465fa7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 069/174] fix: TorchModel.save writes the file it is given

---
 hyperion/torch/torch_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/torch_model.py b/hyperion/torch/torch_model.py
index fcc3d0f..de5baa6 100644
--- a/hyperion/torch/torch_model.py
+++ b/hyperion/torch/torch_model.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import os
+
 import torch
 import torch.nn as nn
 
@@ -26,8 +28,8 @@ class TorchModel(nn.Module):
             os.makedirs(file_dir, exist_ok=True)
 
         config = self.get_config()
-        torch.save({'config': self.get_config(),
-                    'model_state_dict': self.state_dict()})
+        torch.save({'config': config,
+                    'model_state_dict': self.state_dict()}, file_path)
 
 
     def get_reg_loss(self):
-- 
2.43.0


From 7d900f4a1a47a98b6b21309c51b7dabfe2c53987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 070/174] fix: binary accuracy of more than one sample

---
 hyperion/torch/metrics/accuracy_functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/metrics/accuracy_functional.py b/hyperion/torch/metrics/accuracy_functional.py
index 853f765..770a416 100644
--- a/hyperion/torch/metrics/accuracy_functional.py
+++ b/hyperion/torch/metrics/accuracy_functional.py
@@ -78,7 +78,7 @@ def binary_accuracy(input, target, weight=None, reduction='mean', thr=0.5):
         return ok.sum().item()
 
     acc = ok.mean()/weight_mean
-    return ok.item()
+    return acc.item()
 
 
 def binary_accuracy_with_logits(input, target, weight=None, reduction='mean', thr=0):
-- 
2.43.0


From 4252bdf6616962292a007d5bc6a092c5f7763d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 071/174] fix: train-lda.py takes --verbose

---
 hyperion/bin/train-lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..a7c837a 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -83,6 +83,7 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From 3c8a78b944aed155c0932dd28c3ca76d1b141266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 072/174] fix: PLDA training options reach the model

---
 hyperion/helpers/plda_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..a5deb1b 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,7 +65,7 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
+        for a,b in zip(neg_args1, neg_args2):
             d[b] = not d[a]
             del d[a]
 
@@ -95,7 +95,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
-- 
2.43.0


From 15a8ef00a25702cf44c9d107476965a6ce2bcb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 073/174] fix: transforms package exports NSbSw

---
 hyperion/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/__init__.py b/hyperion/transforms/__init__.py
index d38753d..3cc1260 100644
--- a/hyperion/transforms/__init__.py
+++ b/hyperion/transforms/__init__.py
@@ -6,7 +6,7 @@ from __future__ import absolute_import
 
 from .cent_whiten import CentWhiten
 from .lnorm import LNorm
-from .sb_sw import SbSw
+from .sb_sw import SbSw, NSbSw
 from .pca import PCA
 from .lda import LDA
 from .nda import NDA
-- 
2.43.0


From 78b6d5bddd0d7249911d19a1c4ec5508508bfa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 074/174] fix: Gaussianizer keeps all vectors when max_vectors
 is None

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
-- 
2.43.0


From 797d998b9c954e1aa4eb0488cde5b573ed7038cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 075/174] fix: train-linear-svmc.py and
 train-logistic-regression.py start

---
 hyperion/bin/train-linear-svmc.py         | 2 +-
 hyperion/bin/train-logistic-regression.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..cb7ad4a 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -52,7 +52,7 @@ if __name__ == "__main__":
 
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-        fromfile_prefix_chars='@',
+        fromfile_prefix_chars='@', conflict_handler='resolve',
         description='Train linear SVM classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..1ecce2b 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -52,7 +52,7 @@ if __name__ == "__main__":
 
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-        fromfile_prefix_chars='@',
+        fromfile_prefix_chars='@', conflict_handler='resolve',
         description='Train linear logistic regression classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
-- 
2.43.0


From 7fd6bed9f48e0a99019a7a3ea27db1fcf2c62de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 076/174] fix: logistic regression takes its training options
 and default priors

---
 hyperion/classifiers/logistic_regression.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..3620173 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -145,7 +145,7 @@ class LogisticRegression(HypModel):
         if self.priors is None:
             priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
         else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+            priors = np.array([self.priors[i] for i in xrange(num_classes)])
         class_weights = priors/counts
         
         if sample_weight is None:
@@ -158,11 +158,11 @@ class LogisticRegression(HypModel):
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
+                priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors)/self.bias_scaling
 
 
             
@@ -197,9 +197,9 @@ class LogisticRegression(HypModel):
         d = dict((k, kwargs[p+k])
                for k in valid_args if p+k in kwargs)
         if 'no_use_bias' in d:
-            d['use_bias'] = not d['no_use_bias']
+            d['use_bias'] = not d.pop('no_use_bias')
         if 'no_warm_start' in d:
-            d['warm_start'] = not d['no_warm_start']
+            d['warm_start'] = not d.pop('no_warm_start')
         
         return d
 
-- 
2.43.0


From 16ff3437ef9c84e1f607807a78163f8a4952cf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 077/174] fix: vector readers take --vlist-sep

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 52c1394ab85c8b8ee883f9f585dbfde336c692ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:17 +0000
Subject: [PATCH 078/174] fix: frame selectors take --tol-num-frames

---
 hyperion/feats/frame_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From 264c4509d4e3e64d3d0b727d7a4b5df06d178505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 079/174] fix: LinearGBEUP splits means and variances at an
 integer column

---
 hyperion/classifiers/linear_gbe_up.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..1e23d7d 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,8 +42,8 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From 96a62efc4560bba6e4037723dc4a1f351d7ff2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 080/174] fix: CentWhitenUP leaves the vectors it is given
 unchanged

---
 hyperion/transforms/cent_whiten_up.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..55089f0 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,9 +30,10 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:]
         m_x = super(CentWhitenUP, self).predict(m_x)
+        s2_y = np.zeros((x.shape[0], self.T.shape[1]), dtype=x.dtype)
         for i in xrange(x.shape[0]):
-            s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
-        return np.hstack((m_x, s2_x))
+            s2_y[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
+        return np.hstack((m_x, s2_y))
 
 
     
-- 
2.43.0


From 64db6bb8659507c990d93530d71cebb8331e25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:52 +0000
Subject: [PATCH 081/174] fix: QScoringHomoGBE rescales the precision of the
 prior it loaded

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From 3bbae219c23fe73bf63dfdac36f1c4db939043e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 082/174] fix: PLDA E-steps centre the class sums by the class
 counts

---
 hyperion/pdfs/plda/plda.py  | 2 +-
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..1509138 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M=F.shape[0]
         y_dim = self.y_dim
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..f72ca1e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From 3175be36e2e25b43b53e89f91fb23e591745531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 083/174] fix: PLDA E-step centres the second-order statistics

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1509138..56dd4c2 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From e65517dffe48f708922284427e78d1742b9d7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 084/174] fix: by-the-book scoring of several enrolment vectors
 with SPLDA and PLDA

---
 hyperion/pdfs/plda/plda.py  | 13 +++++++------
 hyperion/pdfs/plda/splda.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 56dd4c2..9cdef5e 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -470,18 +470,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,9 +519,10 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index f72ca1e..d66026e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -328,14 +328,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,9 +373,10 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
-- 
2.43.0


From 283f81d85be70ae0047ddd08ad90cec89fb97d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 085/174] fix: PLDA samples with the channel covariance of the
 model

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 9cdef5e..1702bac 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -534,7 +534,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 8d579ef43fe21423fb8919afb715127279c86926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 086/174] fix: PLDA interpolated with another model scores with
 its new parameters

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1702bac..940c383 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -573,6 +573,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From 79075241c4be119e3966136291a10d92312b2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 087/174] fix: FRPLDA with a fixed mean uses both cross terms

---
 hyperion/pdfs/plda/frplda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..9402119 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -221,7 +221,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
-- 
2.43.0


From e5c2ccb45e78e47e2cef7db680a79c90037eab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 088/174] fix: SPLDA with diagonal W starts from a matrix

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index d66026e..85fc586 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From 15f3a6a8f8850acf18a36ec3d06082562e1e5623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 089/174] fix: PLDA M-steps with V or U fixed

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 940c383..7e43ed9 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F[None,:] - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F[None,:] - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From 172a20f8860eba41d7c1399a1468f16ddfbe844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 090/174] fix: linear classifiers use the intercept the solver
 returns whatever the bias scaling

---
 hyperion/classifiers/linear_svmc.py         | 4 ++--
 hyperion/classifiers/logistic_regression.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 5bec0be..ac67bf9 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -51,7 +51,7 @@ class LinearSVMC(HypModel):
             self.svm.coef_ = A.T
 
         if b is not None:
-            self.svm.intercept_ = b/bias_scaling
+            self.svm.intercept_ = b
 
 
     @property
@@ -60,7 +60,7 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3620173..1c12ad3 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -99,7 +99,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,7 +108,7 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
@@ -159,10 +159,10 @@ class LogisticRegression(HypModel):
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
                 priors = priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors)
 
 
             
-- 
2.43.0


From 149dd791bd1d2607d8d754f699852f62ef579477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 091/174] fix: binary logistic regression takes its
 regularization strength and seed

---
 hyperion/classifiers/binary_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,11 +21,11 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From 5b0824c870407417443aab383da4e13b55b688b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 092/174] fix: logistic regression posteriors with the default
 priors

---
 hyperion/classifiers/logistic_regression.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 1c12ad3..c719c6f 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -120,6 +120,12 @@ class LogisticRegression(HypModel):
 
 
     
+    def _prior_vector(self, num_classes):
+        if self.priors is None:
+            return 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
+        return np.array([self.priors[i] for i in xrange(num_classes)])
+
+
     def predict(self, x, eval_type='logit'):
         if x.ndim == 1:
             x = x[:, None]
@@ -127,9 +133,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + np.log(self._prior_vector(y.shape[1])), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + np.log(self._prior_vector(y.shape[1])))
         
         return y
         
@@ -142,10 +148,7 @@ class LogisticRegression(HypModel):
         counts = np.bincount(class_ids)
         assert num_classes == len(counts)
         
-        if self.priors is None:
-            priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
-        else:
-            priors = np.array([self.priors[i] for i in xrange(num_classes)])
+        priors = self._prior_vector(num_classes)
         class_weights = priors/counts
         
         if sample_weight is None:
-- 
2.43.0


From 40b5b1a5dd0dfe7d154c17fcc681411be815c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 093/174] fix: binary log posterior of the SVM has the sign of
 a log probability

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index ac67bf9..5f65d05 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From 692c0d094a5e90121956254a5bcc71d3b7392770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 094/174] fix: vector score and data files are closed before
 the script succeeds

---
 hyperion/bin/ark2hyp.py                  | 11 +++++------
 hyperion/bin/eval-linear-gbe-up.py       |  4 ++--
 hyperion/bin/eval-linear-gbe.py          |  4 ++--
 hyperion/bin/eval-linear-svmc.py         |  4 ++--
 hyperion/bin/eval-logistic-regression.py |  4 ++--
 hyperion/bin/eval-q-scoring-homo-gbe.py  |  4 ++--
 hyperion/io/hyp_data_writer.py           | 14 ++++++++++++++
 7 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..b6ec9a5 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -23,15 +23,14 @@ from hyperion.io import HypDataWriter, KaldiDataReader
 def ark2hyp(input_file, input_dir, output_file, field, chunk_size, squeeze):
 
     output_dir = os.path.dirname(output_file)
-    if not os.path.exists(output_dir):
+    if output_dir and not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
     ark_r = KaldiDataReader(input_file, input_dir)
-    h_w = HypDataWriter(output_file)
-    
-    while not(ark_r.eof()):
-        X, keys = ark_r.read(num_records=chunk_size, squeeze=squeeze)
-        h_w.write(keys, field, X)
+    with HypDataWriter(output_file) as h_w:
+        while not(ark_r.eof()):
+            X, keys = ark_r.read(num_records=chunk_size, squeeze=squeeze)
+            h_w.write(keys, field, X)
 
 
 if __name__ == "__main__":
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..ec534c3 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -56,8 +56,8 @@ def eval_linear_gbe(iv_file, class2int_file, test_file,
     s.save(score_file)
 
     if vector_score_file is not None:
-        h5 = HDW(vector_score_file)
-        h5.write(ndx.seg_set, '', scores)
+        with HDW(vector_score_file) as h5:
+            h5.write(ndx.seg_set, '', scores)
 
     
 if __name__ == "__main__":
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..113c301 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -56,8 +56,8 @@ def eval_linear_gbe(iv_file, class2int_file, test_file,
     s.save(score_file)
 
     if vector_score_file is not None:
-        h5 = HDW(vector_score_file)
-        h5.write(ndx.seg_set, '', scores)
+        with HDW(vector_score_file) as h5:
+            h5.write(ndx.seg_set, '', scores)
 
     
 if __name__ == "__main__":
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..c4e39dd 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -56,8 +56,8 @@ def eval_svm(iv_file, class2int_file, test_file,
     s.save(score_file)
 
     if vector_score_file is not None:
-        h5 = HDW(vector_score_file)
-        h5.write(ndx.seg_set, '', scores)
+        with HDW(vector_score_file) as h5:
+            h5.write(ndx.seg_set, '', scores)
 
     
 if __name__ == "__main__":
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..1649885 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -56,8 +56,8 @@ def eval_lr(iv_file, class2int_file, test_file,
     s.save(score_file)
 
     if vector_score_file is not None:
-        h5 = HDW(vector_score_file)
-        h5.write(ndx.seg_set, '', scores)
+        with HDW(vector_score_file) as h5:
+            h5.write(ndx.seg_set, '', scores)
 
     
 if __name__ == "__main__":
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..db45e5c 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -56,8 +56,8 @@ def eval_qscoring_gbe(iv_file, class2int_file, test_file,
     s.save(score_file)
 
     if vector_score_file is not None:
-        h5 = HDW(vector_score_file)
-        h5.write(ndx.seg_set, '', scores)
+        with HDW(vector_score_file) as h5:
+            h5.write(ndx.seg_set, '', scores)
 
     
 if __name__ == "__main__":
diff --git a/hyperion/io/hyp_data_writer.py b/hyperion/io/hyp_data_writer.py
index 6c75052..f08d790 100644
--- a/hyperion/io/hyp_data_writer.py
+++ b/hyperion/io/hyp_data_writer.py
@@ -25,6 +25,20 @@ class HypDataWriter(object):
         self.f = h5py.File(file_path, 'w')
 
 
+    def __enter__(self):
+        return self
+
+
+    def __exit__(self, exc_type, exc_value, traceback):
+        self.close()
+
+
+    def close(self):
+        if self.f is not None:
+            self.f.close()
+            self.f = None
+
+
     def write(self, keys, field, x):
         #datasets = keys.astype(np.object)+field
         if isinstance(keys, string_types):
-- 
2.43.0


From fb5d7a079ad750e85da50a7921261986ac558545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 095/174] fix: score normalization leaves the cohort scores it
 is given unchanged

---
 hyperion/score_norm/adapt_s_norm.py | 4 ++--
 hyperion/score_norm/t_norm.py       | 2 +-
 hyperion/score_norm/z_norm.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..494e435 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -34,9 +34,9 @@ class AdaptSNorm(ScoreNorm):
             nbest = self.nbest
 
         if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
+            scores_coh_test = np.where(mask_coh_test, scores_coh_test, 0)
         if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+            scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
         best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..2299446 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,7 +21,7 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
+            scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
             s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..9b968d8 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,7 +22,7 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
+            scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
             s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
-- 
2.43.0


From 6349fe5572e340015abb318a3a364c592a04e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 096/174] fix: ZT-norm and TZ-norm can be created, ZT-norm
 takes the mask of the cohort scores

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 494e435..db134b0 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From c9dc06e423054a3b5601da28138264b29f954b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 097/174] fix: adaptive S-norm floors the standard deviations

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index db134b0..9d65b7b 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -56,6 +56,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
                                       axis=1, keepdims=True)/norm - mu_z**2)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
@@ -77,6 +78,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
                                       axis=0, keepdims=True)/norm - mu_z**2)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
-- 
2.43.0


From 8f66da193b751c7d55add7ce7e62c9dae5ad0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 098/174] fix: eval-score-norm.py starts and normalizes

---
 hyperion/bin/eval-score-norm.py | 36 ++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..4f0f569 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -21,7 +21,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -34,13 +34,13 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
@@ -53,24 +53,24 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
-               enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
-               adapt_coh=None):
+def eval_score_norm(score_file, output_file, norm_type,
+                    enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
+                    adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -79,17 +79,21 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
-        norm = SNorm()
+    if norm_type == 's-norm':
+        assert scores_enr_coh is not None and scores_coh_test is not None
+        if adapt_coh is None:
+            norm = SNorm()
+        else:
+            # each cohort segment is looked up by its position in both matrices
+            ndx = TrialNdx(scores_enr_coh.seg_set, scores.seg_set)
+            scores_coh_test = scores_coh_test.align_with_ndx(ndx)
+            norm = AdaptSNorm(nbest=adapt_coh)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
-- 
2.43.0


From 037feb8aac79686e615cc8e7abd84c56be3a07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 099/174] fix: KaldiDataReader reads each record at its offset
 and refuses cut vectors

---
 hyperion/io/kaldi_data_reader.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..199aee5 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -24,13 +24,12 @@ class KaldiDataReader(object):
             self.cur_record=0
             
             scp = SCPList.load(file_path, sep=sep)
-            if input_dir is None:
-                  self.scp = OrderedDict((k, v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
-            else:
-                  input_dir+='/'
-                  self.scp = OrderedDict((k, input_dir+v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+            paths = list(scp.file_path)
+            if input_dir is not None:
+                  paths = [input_dir + '/' + p for p in paths]
+            if scp.offset is not None:
+                  paths = ['%s:%d' % (p, o) for p, o in zip(paths, scp.offset)]
+            self.scp = OrderedDict(zip(scp.key, paths))
 
                   
       def read(self, keys=None, num_records=None, first_record=None, squeeze=False):
@@ -41,7 +40,7 @@ class KaldiDataReader(object):
                         
                   if num_records is None:
                         keys = keys[self.cur_record:]
-                        self.cur_record = len(keys)
+                        self.cur_record = len(self.scp)
                   else:
                         final_record = min(self.cur_record+num_records, len(keys))
                         keys = keys[self.cur_record:final_record]
@@ -91,8 +90,6 @@ class KaldiDataReader(object):
             # except:
             f = KaldiDataReader._open(f, 'rb')
             binary = f.read(2)
-            print('except')
-            print(binary)
                   
             if binary == b'\0B' :
                   mat = KaldiDataReader._read_bin_matrix(f)
@@ -125,6 +122,7 @@ class KaldiDataReader(object):
             # Read whole matrix
             buf = f.read(rows * cols * np.dtype(dtype).itemsize)
             vec = np.frombuffer(buf, dtype=dtype)
+            assert len(vec) == rows * cols, 'record is cut'
             if ndim == 2:
                   mat = np.reshape(vec,(rows,cols))
             else:
-- 
2.43.0


From ab5634e70d110a074d493665f2939737943dc941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 100/174] fix: OpenSAT VAD segments end after their last frame

---
 hyperion/bin/arkvad2nist.py | 4 ++--
 hyperion/bin/h5vad2nist.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..4afcaaf 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -38,8 +38,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p + 1
+        prev_stop = p + 1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..1756f7e 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -38,8 +38,8 @@ def bin2intervals(vad):
     prev_stop = 0
     for i, p in enumerate(change_points):
         start[i] = prev_stop
-        stop[i] = p
-        prev_stop = p
+        stop[i] = p + 1
+        prev_stop = p + 1
         state[i] = speech
         speech = not speech
         conf[i] = 1.0
-- 
2.43.0


From 474e5b6b447ba61e04b6b586cf7810c235b23aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 101/174] fix: arkvad2nist.py starts

---
 hyperion/bin/arkvad2nist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 4afcaaf..ae4f06a 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -19,6 +19,7 @@ import logging
 import numpy as np
 
 
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From ffd3d8e5f9681175fa068f3ff9dcecabe0941520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 102/174] fix: binary VAD scripts run without the file of frame
 counts and keep file ids

---
 hyperion/bin/rttm-to-bin-vad.py     | 7 ++++---
 hyperion/bin/segments-to-bin-vad.py | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..351c36f 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -26,7 +26,8 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'],
+                                     dtype={'file_id': str}, keep_default_na=False, index_col=0)
 
     segments = RTTM.load(rttm_file).to_segment_list()
     segments_orig = copy.deepcopy(segments)
@@ -41,10 +42,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..75c2e94 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -25,7 +25,8 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'],
+                                     dtype={'file_id': str}, keep_default_na=False, index_col=0)
 
     segments = SegmentList.load(segments_file)
     if num_parts  > 1:
@@ -39,7 +40,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From 1c1450b08d0f6e9c1e7a6c3c592b821973fa5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 103/174] fix: binary VAD of a file without a frame count ends
 with its latest segment

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 794ba18..c409224 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -299,11 +299,11 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames = np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-- 
2.43.0


From fab2d5ccf5f36d8c548c9c8ebcde6ed226208a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 104/174] fix: switching off the update of centering or
 whitening takes effect

---
 hyperion/transforms/cent_whiten.py | 5 +++--
 hyperion/transforms/pca.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 491dff3..acac67b 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 class CentWhiten(HypModel):
@@ -134,11 +135,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
         parser.add_argument('--name', dest='name', default='lnorm')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index c5517ca..24bbd5d 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 
@@ -129,10 +130,10 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
-- 
2.43.0


From bfe3b0c0051b65dc0596dc7667275820954c6986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 105/174] fix: CentWhiten applies a diagonal whitening matrix

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index acac67b..994e2f3 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -33,7 +33,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From 95354de04609737126060eb5aeb548316035b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 106/174] fix: train-cw.py and train-gaussianizer.py start from
 the model of --input-path

---
 hyperion/bin/train-cw-up.py        | 2 +-
 hyperion/bin/train-cw.py           | 2 +-
 hyperion/bin/train-gaussianizer.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..3cf79dd 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -37,7 +37,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNormUP.load(input_path)
         else:
-            return CentWhitenUP(input_path)
+            return CentWhitenUP.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..4f1dfc8 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -37,7 +37,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNorm.load(input_path)
         else:
-            return CentWhiten(input_path)
+            return CentWhiten.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..8187d63 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -35,7 +35,7 @@ def load_model(input_path, **kwargs):
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-            if tf.name == name:
+            if tf.name == kwargs['name']:
                 return tf
             
 
-- 
2.43.0


From 514224fd0ff8b65659f3c3b6e0ea0fe074309074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 107/174] fix: flat clusters of AHC are computed for each
 number of clusters

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From c56ef148b50480e541d2264839f05bf387aa71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 108/174] fix: NAP is trained

---
 hyperion/transforms/nap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..4ca90eb 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -27,16 +27,16 @@ class NAP(HypModel):
 
     
     def fit(self, x, U_dim, class_ids):
-        x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        xx = np.zeros_like(x)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
             xx[idx, :] = (x[idx, :] - mu_i)/N
         xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+        _, s, Vt = la.svd(xx, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From 855d20c68413e4ffece4ccb4a3b7077a00207500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 109/174] fix: unsupervised Gaussian calibration finds its
 mixture model

---
 hyperion/calibration/unsup_gauss_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/calibration/unsup_gauss_calibration.py b/hyperion/calibration/unsup_gauss_calibration.py
index 1c8ccac..3784127 100644
--- a/hyperion/calibration/unsup_gauss_calibration.py
+++ b/hyperion/calibration/unsup_gauss_calibration.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from ..pdfs.mixtures.diag_gmm_tiedcovs import DiagGMMTiedCovs as GMM
+from ..pdfs.mixtures import GMMTiedDiagCov as GMM
 from .gauss_calibration import GaussCalibration
 
 class UnsupGaussCalibration(GaussCalibration):
-- 
2.43.0


From 5c8c07c315e98d6d7b582ba8860ff8ebcc82fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 110/174] fix: Gaussian calibration keeps its target prior when
 it is saved

---
 hyperion/calibration/gauss_calibration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index 70f083d..f7524fd 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -66,7 +66,8 @@ class GaussCalibration(HypModel):
     def save_params(self, f):
         params = {'mu1': self.mu1,
                   'mu2': self.mu2,
-                  'sigma2': self.sigma2}
+                  'sigma2': self.sigma2,
+                  'prior': self.prior}
         self._save_params_from_dict(f, params)
 
         
@@ -74,7 +75,11 @@ class GaussCalibration(HypModel):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
-        params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
+        name = config['name']
+        if ('prior' if name is None else name + '/prior') in f:
+            param_list.append('prior')
+        params = cls._load_params_to_dict(f, name, param_list)
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'],
+                   prior=params.get('prior', 0.5), name=name)
 
     
-- 
2.43.0


From 232795730ec6256bf00cef879380b3ab53e6b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 111/174] fix: predictive evaluation of the Gaussian back-end
 uses the determinant of its precision

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..8ef2652 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From 5925a2a0f151c818a891babe497c90bd3c9be6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 112/174] fix: logistic regression leaves the sample weights it
 is given unchanged

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index c719c6f..b73398e 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -154,7 +154,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 5e535679382e85f6d0658e248b6ec1ac738b9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 113/174] fix: Gaussian back-end with uncertainty floors its
 covariance above the mean uncertainty

---
 hyperion/classifiers/linear_gbe_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 1e23d7d..380dd66 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -173,7 +173,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
-- 
2.43.0


From 8524e4f70b89f89bcd75fe14bb45bb76e3d886af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:47 +0000
Subject: [PATCH 114/174] fix: train-nda.py trains with classes smaller than
 ten

---
 hyperion/bin/train-nda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..8122e70 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -50,7 +50,7 @@ def train_nda(iv_file, train_list, preproc_file,
     
     x = model.predict(x)
 
-    s_mat = NSbSw()
+    s_mat = NSbSw(K=K, alpha=alpha)
     s_mat.fit(x, class_ids)
     logging.debug(s_mat.Sb[:4,:4])
     logging.debug(s_mat.Sw[:4,:4])
-- 
2.43.0


From 4000ef652a85920f225d337eaece24b5c9c31ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 115/174] fix: a model that cannot be saved completely is not
 left behind

---
 hyperion/hyp_model.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 03697d6..7e5f997 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -59,10 +59,17 @@ class HypModel(object):
         file_dir = os.path.dirname(file_path)
         if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
-        with h5py.File(file_path,'w') as f:
-            config=self.to_json()
-            f.create_dataset('config', data=np.array(config, dtype='S'))
-            self.save_params(f)
+        try:
+            with h5py.File(file_path,'w') as f:
+                config=self.to_json()
+                f.create_dataset('config', data=np.array(config, dtype='S'))
+                self.save_params(f)
+        except Exception:
+            # HDF5 may still write the headers when it closes the file, what
+            # is left would load with zeros in place of the missing values
+            if os.path.isfile(file_path):
+                os.remove(file_path)
+            raise
 
         
     @abstractmethod
-- 
2.43.0


From 881a6ff9b76593f14073468c28c0deaca69ca62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:44 +0000
Subject: [PATCH 116/174] fix: PLDA minimum divergence step does not lower the
 likelihood when V is fixed

---
 hyperion/pdfs/plda/plda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 7e43ed9..bfb3550 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -352,6 +352,9 @@ class PLDA(PLDABase):
         R = Ry - np.outer(Ry1,Ry1)/N
         mult_iR = invert_pdmat(R, right_inv=True)[0]
         H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        if not self.update_V:
+            # what z has in common with y can only go into V
+            H = np.zeros_like(H)
         mu_z = (Rz1 - np.dot(Ry1, H.T))/N
         RzyH = np.dot(Ryz.T, H.T)
         Cov_z = ((Rz - RzyH - RzyH.T + np.dot(np.dot(H,Ry), H.T))/N -
-- 
2.43.0


From 96beae0c181f4820d81884e71604d303a659ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 117/174] fix: eval-2class-performance.py writes into the
 current directory

---
 hyperion/bin/eval-2class-performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..7e3107e 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -30,7 +30,7 @@ def eval_2class_performance(score_file, key_file, output_path):
     key = TrialKey.load(key_file)
 
     output_dir = os.path.dirname(output_path)
-    if not(os.path.isdir(output_dir)):
+    if output_dir and not(os.path.isdir(output_dir)):
         os.makedirs(output_dir, exist_ok=True)
     
     tar, non = scr.get_tar_non(key)
-- 
2.43.0


From 6dfba9684ccb8ed49e7612209f601f0de7fa038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 118/174] fix: vector plots create their output directory

---
 hyperion/bin/plot-vector-hist.py | 2 +-
 hyperion/bin/plot-vector-tsne.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..8e1d274 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -43,7 +43,7 @@ def plot_vector_hist(iv_file, v_list, preproc_file, output_path, num_bins, norme
     t1 = time.time()
 
     if not os.path.exists(output_path):
-        os.makedirs(ouput_path)
+        os.makedirs(output_path)
 
     for i in xrange(x.shape[1]):
         
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..7f8a29c 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -57,7 +57,7 @@ def plot_vector_tsne(iv_file, v_list, preproc_file,
         x = pca.predict(x)
 
     if not os.path.exists(output_path):
-        os.makedirs(ouput_path)
+        os.makedirs(output_path)
 
     tsne_obj = lambda n: TSNE(
         n_components=n,
-- 
2.43.0


From c112f9a30809f30a7d713e831b77b97e446fe6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 119/174] fix: score normalization with masked cohort floors
 the deviation of equal scores

---
 hyperion/score_norm/adapt_s_norm.py | 10 ++++++----
 hyperion/score_norm/t_norm.py       |  2 +-
 hyperion/score_norm/z_norm.py       |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 9d65b7b..6c62506 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -53,8 +53,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_enr_coh[:, best_idx_i],
                                axis=1, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                s_z = np.sqrt(np.mean(np.where(mask_enr_coh[:, best_idx_i],
+                                               scores_enr_coh[:, best_idx_i] - mu_z, 0)**2,
+                                      axis=1, keepdims=True)/norm)
 
             s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
@@ -75,8 +76,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_coh_test[best_idx_i,:],
                                axis=0, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                s_z = np.sqrt(np.mean(np.where(mask_coh_test[best_idx_i,:],
+                                               scores_coh_test[best_idx_i,:] - mu_z, 0)**2,
+                                      axis=0, keepdims=True)/norm)
 
             s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 2299446..627ca1a 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -24,7 +24,7 @@ class TNorm(ScoreNorm):
             scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            s_t = np.sqrt(np.mean(np.where(mask, scores_coh_test - mu_t, 0)**2, axis=0, keepdims=True)/n_t)
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index 9b968d8..1f7c334 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -25,7 +25,7 @@ class ZNorm(ScoreNorm):
             scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            s_z = np.sqrt(np.mean(np.where(mask, scores_enr_coh - mu_z, 0)**2, axis=1, keepdims=True)/n_z)
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From 1c6356944366a7920702015dc056c25eb83c6076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 120/174] fix: RTTM lookups, membership, filtering, splitting
 and change of index

---
 hyperion/utils/rttm.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index b7713b6..a37a667 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
@@ -306,14 +306,15 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        key = self.unique_file_id if self.index_by_file else np.asarray(self.segments.index)
+        key, _ = split_list(key, idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
-- 
2.43.0


From a9ec7e1afbdeee00a9762babfdb16ab02ea7cf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 121/174] fix: RTTM segments without times can be created and
 loaded

---
 hyperion/utils/rttm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index a37a667..f2c3752 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -50,9 +50,9 @@ class RTTM(object):
         if chnl is None:
             chnl = [1 for i in xrange(num_segments)]
         if tbeg is None:
-            tbeg = nans
+            tbeg = np.nan
         if tdur is None:
-            tend = nans
+            tdur = np.nan
         if ortho is None:
             ortho = nans
         if stype is None:
@@ -136,7 +136,7 @@ class RTTM(object):
     def validate(self):
         """Validates the attributes of the RTTM object.
         """
-        assert np.all(np.logical_or(self.tbeg[1:]-self.tbeg[:-1]>=0,
+        assert np.all(np.logical_or(np.logical_not(self.tbeg[1:]-self.tbeg[:-1]<0),
                                     self.file_id[1:] != self.file_id[:-1]))
 
 
-- 
2.43.0


From eed343642294543d6187970f652abd7a33a1a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 122/174] fix: joining RTTM segments keeps the end of the
 longest one

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index f2c3752..9070690 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -345,7 +345,7 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(segm.iloc[i].tbeg + segm.iloc[i].tdur, tbeg + segm.iloc[i-1].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
-- 
2.43.0


From 3c252566be4f54857677c353b3ff2060b33bc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 123/174] fix: eliminating RTTM overlaps cuts each pair of
 segments at one time

---
 hyperion/utils/rttm.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 9070690..72f7acc 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -472,14 +472,13 @@ class RTTM(object):
         # logging.debug(index)
         # logging.debug(self.segments.loc[index])
         # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        # each segment starts at the middle of the overlap with the previous one
+        # and ends at the middle of the overlap with the next one
+        index, tavg = index.values, tavg.values
+        tbeg = np.where(index, tavg, tbeg.values)
+        tend = np.where(np.append(index[1:], False), np.append(tavg[1:], 0), tend.values)
+        self.segments['tbeg'] = tbeg
+        self.segments['tdur'] = tend - tbeg
 
 
 
-- 
2.43.0


From 6b02ca7252754da1c3fe301dce8c9f204e7ef51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 124/174] fix: RTTM.to_matrix returns the speakers of each
 frame

---
 hyperion/utils/rttm.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 72f7acc..48612d4 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -485,18 +485,20 @@ class RTTM(object):
     
     def to_matrix(self, file_id, frame_shift=0.001):
         if self.index_by_file:
-            segments = self.segments[file_id]
+            segments = self.segments.loc[[file_id]]
         else:
             segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.round(segments['tbeg'].values/frame_shift).astype(dtype=int)
+        tend = np.round((segments['tbeg']+segments['tdur']).values/frame_shift).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
-- 
2.43.0


From a22c153288c37d4c77bdb6a2cb3cf8eaa74b1b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 125/174] fix: RTTM.compute_stats chooses its number of bins

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 48612d4..24afeb8 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -514,7 +514,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
-- 
2.43.0


From 5d7434e0f637e35beadfe1005fe6216740801f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 126/174] fix: segment ids made from RTTM files tell segments
 of the same second apart

---
 hyperion/utils/rttm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 24afeb8..a148ae1 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -534,7 +534,7 @@ class RTTM(object):
         segments['segment_id'] = ['%s-%07d-%07d' % (file_id, tbeg, tdur)
                                   for file_id, tbeg, tdur in zip(
                                           segments['file_id'],
-                                          segments['tbeg'],
-                                          segments['tend'])]
+                                          np.round(segments['tbeg']*1000),
+                                          np.round(segments['tend']*1000))]
 
         return SegmentList(segments)
-- 
2.43.0


From d47da3ec3547e68c43f4af7a5d7721f7d86b4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 127/174] fix: energy VAD with frame context

---
 hyperion/feats/energy_vad.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..f75be09 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
@@ -105,28 +106,20 @@ class EnergyVAD(object):
             
 
         # compute VAD from logE
-        print(np.mean(logE))
         e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)
-        print(e_thr)
-        print(logE)
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
         if context == 0:
             return vad
  
-        window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
-
-        h = np.ones((window,), dtype='float32')
-        num_count = np.convolve(vad.astype('float32'), h, 'same')
-        den_count_boundary = np.arange(context+1, window, dtype='float32')
-        num_count[:context] /= den_count_boundary
-        num_count[-context:] /= den_count_boundary[::-1]
-        num_count[context:-context] /= window
+        # proportion of speech frames in the part of the window inside the file
+        h = np.ones((2*context + 1,), dtype=float_cpu())
+        num_frames = len(vad)
+        num_count = np.convolve(vad.astype(float_cpu()), h)[context:context+num_frames]
+        den_count = np.convolve(np.ones((num_frames,), dtype=float_cpu()), h)[context:context+num_frames]
         
-        vad = num_count > self.vad_proportion_threshold
+        vad = num_count/den_count > self.vad_proportion_threshold
         return vad
         
     
-- 
2.43.0


From 0edbd94e133097e175c44ddc14d9ac6140bf3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 128/174] fix: compute-energy-vad runs

---
 hyperion/bin/compute-energy-vad.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..07b8c73 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -17,14 +17,14 @@ from six.moves import xrange
 
 from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
-#from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.hyp_defs import float_cpu
+from hyperion.feats import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -40,10 +40,11 @@ def compute_vad(input_path, output_path,  **kwargs):
         rtf = vad.frame_shift*y.shape[0]/dt
         logging.info('Extracted VAD for %s num-frames=%d elapsed-time=%.2f ms. real-time-factor=%.2f' %
                      (key, y.shape[0], dt, rtf))
-        writer.write([key], [y])
+        writer.write([key], [y.astype(float_cpu())])
         
         vad.reset()
             
+    writer.close()
     
 
 if __name__ == "__main__":
@@ -56,7 +57,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From 30cfcd7af645880fab106f58f89d1d9e5b7b31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 129/174] fix: the audio readers apply the wave scale option

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index fc3a466..bf2507b 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -252,7 +252,7 @@ class SequentialAudioReader(AudioReader):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('part_idx', 'num_parts')
+        valid_args = ('wav_scale', 'part_idx', 'num_parts')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 1fa5cbfbd69cbf7a5bd9a877c68fe6ef17928437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:15 +0000
Subject: [PATCH 130/174] fix: frame selection with integer or float decisions

---
 hyperion/feats/frame_selector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 77cea7f..4f04953 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -32,6 +32,8 @@ class FrameSelector(object):
         Returns:
           Feature matrix with selected frames.
         """
+        # integers would select the frames 0 and 1
+        sel = np.asarray(sel, dtype=bool)
         num_frames = x.shape[0]
         num_frames_vad = sel.shape[0]
         if num_frames == num_frames_vad:
-- 
2.43.0


From 48bb502cf29d94337f1e428678adc81b77d45b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 131/174] fix: filter banks with a high frequency below Nyquist

A negative high frequency is documented as an offset from the Nyquist
frequency but was used as the frequency itself.
---
 hyperion/feats/filter_banks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/feats/filter_banks.py b/hyperion/feats/filter_banks.py
index d74b6cd..6d19507 100644
--- a/hyperion/feats/filter_banks.py
+++ b/hyperion/feats/filter_banks.py
@@ -49,8 +49,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_kaldi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq += fs/2
             
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
         mel_high_freq = FilterBankFactory.lin2mel(high_freq)
@@ -76,8 +76,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_etsi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq += fs/2
 
         fs_2 = fs/2
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
@@ -98,8 +98,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_linear(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq += fs/2
         
         fs_2 = fs/2
         fc = np.linspace(low_freq, high_freq, num_filters+2)
-- 
2.43.0


From e5c2b89d78bfc3d7892af37f5d0376628025301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 132/174] fix: cepstra from stored filter-bank outputs without
 energy

MFCC with input step logfb and use_energy off read an unset variable.
---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..c2d9ea6 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From 14dff65a13440a0c7c45e847a206fd9fab61968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 133/174] fix: frames beyond the edges with a shift longer than
 half a frame

With snip_edges off and a shift longer than half a frame, the last frame can
end before the last sample; the padding was negative and np.pad raised.
---
 hyperion/feats/energy_vad.py | 4 ++++
 hyperion/feats/mfcc.py       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index f75be09..0c1cda6 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -86,6 +86,10 @@ class EnergyVAD(object):
                 dlen_x = len_x - len(x)
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
                 dlen2_x = int(dlen_x - dlen1_x)
+                if dlen2_x < 0:
+                    # the last samples are beyond the last frame
+                    x = x[:dlen2_x]
+                    dlen2_x = 0
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index c2d9ea6..d03108e 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -251,6 +251,10 @@ class MFCC(object):
                 #x = np.pad(x, (0, dlen_x), mode='reflect')
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
                 dlen2_x = int(dlen_x - dlen1_x)
+                if dlen2_x < 0:
+                    # the last samples are beyond the last frame
+                    x = x[:dlen2_x]
+                    dlen2_x = 0
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
-- 
2.43.0


From feb93e6f4b6b68148c84d65086cc2363752064b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 134/174] fix: the programs compile with current Python

A second docstring before the __future__ imports is a syntax error since
Python 3.8, so that the programs could not be started.
---
 hyperion/bin/ark2hyp.py                              | 3 +--
 hyperion/bin/arkvad2nist.py                          | 3 +--
 hyperion/bin/compute-gmm-post.py                     | 3 +--
 hyperion/bin/eval-2class-performance.py              | 3 +--
 hyperion/bin/eval-cos-1vs1.py                        | 3 +--
 hyperion/bin/eval-elbo-ubm.py                        | 3 +--
 hyperion/bin/eval-linear-gbe-up.py                   | 3 +--
 hyperion/bin/eval-linear-gbe.py                      | 3 +--
 hyperion/bin/eval-linear-svmc.py                     | 3 +--
 hyperion/bin/eval-logistic-regression.py             | 3 +--
 hyperion/bin/eval-plda-1vs1.py                       | 3 +--
 hyperion/bin/eval-plda-nvs1.py                       | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py              | 3 +--
 hyperion/bin/eval-score-norm.py                      | 3 +--
 hyperion/bin/h5vad2nist.py                           | 3 +--
 hyperion/bin/init-ubm.py                             | 2 --
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-pdda-nvs1.py                 | 2 --
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 hyperion/bin/keras-train-tvae-ivector.py             | 3 +--
 hyperion/bin/merge-h5-files.py                       | 3 +--
 hyperion/bin/plot-vector-hist.py                     | 3 +--
 hyperion/bin/plot-vector-tsne.py                     | 3 +--
 hyperion/bin/train-cw-up.py                          | 3 +--
 hyperion/bin/train-cw.py                             | 3 +--
 hyperion/bin/train-gaussianizer.py                   | 3 +--
 hyperion/bin/train-lda.py                            | 3 +--
 hyperion/bin/train-linear-gbe-up.py                  | 3 +--
 hyperion/bin/train-linear-gbe.py                     | 3 +--
 hyperion/bin/train-linear-svmc.py                    | 3 +--
 hyperion/bin/train-logistic-regression.py            | 3 +--
 hyperion/bin/train-mvn.py                            | 3 +--
 hyperion/bin/train-nda.py                            | 3 +--
 hyperion/bin/train-pca.py                            | 3 +--
 hyperion/bin/train-plda.py                           | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py             | 3 +--
 62 files changed, 60 insertions(+), 124 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index b6ec9a5..a998beb 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index ae4f06a..1bd2a33 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index 7e3107e..621dd4e 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index ec534c3..27255a5 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 113c301..5067456 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index c4e39dd..753b167 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 1649885..ec6bcc2 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 8fffee3..8efece9 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index db45e5c..a62ed0a 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 4f0f569..82056b9 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 1756f7e..e726b6b 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-nvs1.py b/hyperion/bin/keras-eval-pdda-nvs1.py
index 8db98ed..ce6fe2d 100755
--- a/hyperion/bin/keras-eval-pdda-nvs1.py
+++ b/hyperion/bin/keras-eval-pdda-nvs1.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..5e0a2a6 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..3b75603 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tvae-ivector.py b/hyperion/bin/keras-train-tvae-ivector.py
index 7e64e5a..ed3bf43 100755
--- a/hyperion/bin/keras-train-tvae-ivector.py
+++ b/hyperion/bin/keras-train-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 8e1d274..45e6746 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 7f8a29c..3897a89 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index 3cf79dd..7127715 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index 4f1dfc8..9d0e487 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 8187d63..51283ed 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index a7c837a..9a4ebc0 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index cb7ad4a..8ad2e13 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 1ecce2b..772adf3 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 8122e70..518b794 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From 038efb980d59c640d8e62733d034169736842816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:04 +0000
Subject: [PATCH 135/174] fix: consumers of a stopped queue of processes see
 its end

stop() closes the multiprocessing queue; a consumer in another thread that
had just seen an item in it got a ValueError instead of the end.
---
 hyperion/io/queues.py    | 8 +++++++-
 hyperion/utils/queues.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index b25a2e4..c1ceb59 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -298,7 +298,13 @@ class GeneratorQueue(SequenceQueue):
             # the workers end when the generator has no more data
             finished = not any(thread.is_alive() for thread in threads)
             if not data_queue.empty():
-                inputs = data_queue.get()
+                try:
+                    inputs = data_queue.get()
+                except ValueError:
+                    # stop() in other thread closes the queue of the processes
+                    if stop_event.is_set():
+                        break
+                    raise
                 if inputs is not None:
                     yield inputs
             elif finished:
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index b25a2e4..c1ceb59 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -298,7 +298,13 @@ class GeneratorQueue(SequenceQueue):
             # the workers end when the generator has no more data
             finished = not any(thread.is_alive() for thread in threads)
             if not data_queue.empty():
-                inputs = data_queue.get()
+                try:
+                    inputs = data_queue.get()
+                except ValueError:
+                    # stop() in other thread closes the queue of the processes
+                    if stop_event.is_set():
+                        break
+                    raise
                 if inputs is not None:
                     yield inputs
             elif finished:
-- 
2.43.0


From 766591ec3973a2062bec4a721db5a979944035f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 136/174] fix: keys that are not ASCII can be written to ark
 files and read back

---
 hyperion/utils/kaldi_io_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/kaldi_io_funcs.py b/hyperion/utils/kaldi_io_funcs.py
index 664c398..c406b2e 100644
--- a/hyperion/utils/kaldi_io_funcs.py
+++ b/hyperion/utils/kaldi_io_funcs.py
@@ -61,7 +61,7 @@ def read_token(f, binary):
             break
         token += c
     
-    return token.decode('ascii')
+    return token.decode('utf-8')
         
 
 
@@ -71,7 +71,7 @@ def write_token(f, binary, token):
     check_token(token)
     token = '%s ' % token
     if binary:
-        token = token.encode('ascii')
+        token = token.encode('utf-8')
     f.write(token)
 
 
-- 
2.43.0


From 58ab936d635bc4d84850cdb46054206a7bff2c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 137/174] fix: the type of a script's archives is found with
 its own separator, also if the paths have spaces

---
 hyperion/io/data_rw_factory.py | 4 ++--
 hyperion/io/rw_specifiers.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..20b143c 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -93,7 +93,7 @@ class SequentialDataReaderFactory(object):
     def create(rspecifier, path_prefix=None, scp_sep=' ', **kwargs):
         
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep)
             
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
@@ -148,7 +148,7 @@ class RandomAccessDataReaderFactory(object):
     @staticmethod
     def create(rspecifier, path_prefix=None, transform=None, scp_sep=' '):
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep)
         logging.debug(rspecifier.__dict__)
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 39e74a9..2b466aa 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -294,7 +294,7 @@ class RSpecifier(object):
 
     
     @classmethod
-    def create(cls, rspecifier):
+    def create(cls, rspecifier, scp_sep=' '):
         fields = rspecifier.strip().split(':')
         if len(fields) == 1:
             assert len(fields[0]) > 0
@@ -340,7 +340,7 @@ class RSpecifier(object):
                 with open(archive, 'r') as f:
                     line = f.readline().strip()
                     # an empty list, e.g. the output of a job without work, fits any type
-                    scp = line.split(' ')[1].split('[')[0].split(':') if line else []
+                    scp = line.split(scp_sep, 1)[1].split('[')[0].split(':') if line else []
                     if len(scp) <= 1:
                         archive_type = ArchiveType.H5
                     else:
-- 
2.43.0


From 917c9d5f5a6c74e751ed004fac3788f7390cbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 138/174] fix: sequence readers use the sequences of exactly
 the minimum length

---
 hyperion/helpers/sequence_post_reader.py | 2 +-
 hyperion/helpers/sequence_reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..e686487 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..8252921 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -193,7 +193,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From eda557d23eac8c47d811ab2854f802bbffe8da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 139/174] fix: sequence readers finish the epoch when few
 sequences have parts left

---
 hyperion/helpers/sequence_post_reader.py | 4 ++--
 hyperion/helpers/sequence_reader.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index e686487..c2a2e0f 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -124,7 +124,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -210,7 +210,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 8252921..c1432ad 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -210,7 +210,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -274,7 +274,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From 8645e85aeb78b349ebf8c37c2223854bd103d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 140/174] fix: sequences shorter than the overlap do not take
 away from the epoch

---
 hyperion/helpers/sequence_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index c1432ad..7382f64 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -98,6 +98,7 @@ class SequenceReader(object):
             else:
                 shift = self.max_seq_length - self.seq_split_overlap
                 num_subseqs = (np.floor((seq_length-self.seq_split_overlap)/shift)).astype(int)
+                num_subseqs = np.maximum(num_subseqs, 0)
                 remainder = seq_length - num_subseqs*shift
                 num_subseqs += (remainder >= self.min_seq_length).astype(int)
             self._num_subseqs = num_subseqs
-- 
2.43.0


From 0590c67afcb5259b991c1f36819d8c0caa080496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 141/174] fix: sequence readers work with the default minimum
 length of their options

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 7382f64..788b209 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -344,7 +344,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
-- 
2.43.0


From 236b18897c289ad3eaa2e2d5db5755acc27f1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:14 +0000
Subject: [PATCH 142/174] fix: num-comp option of the evaluation with
 posteriors without a prefix

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index c2a2e0f..d963756 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -302,9 +302,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
-- 
2.43.0


From f6ac1c72374841f6826adeeef4d97309f6f14b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:28 +0000
Subject: [PATCH 143/174] fix: sequence readers apply the transform of
 --preproc-file

---
 hyperion/helpers/sequence_post_reader.py |  4 +++-
 hyperion/helpers/sequence_reader.py      | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index d963756..067274c 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -69,6 +69,7 @@ class SequencePostReader(SequenceReader):
         else:
             x, r, keys = self._read_subseqs_random_1seq()
             
+        x = self._apply_preproc(x)
         self.cur_batch +=1
 
         if return_3d:
@@ -83,7 +84,8 @@ class SequencePostReader(SequenceReader):
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        x = self.r.read([key], field=self.field, return_tensor=False)[0]
+        x = self.r.read([key], field=self.field, return_tensor=False)
+        x = self._apply_preproc(x)[0]
         r = self.post_r.read([key], field='.r', return_tensor=False)[0]
         index = self.post_r.read([key], field='.index', return_tensor=False)[0]
         r = self.to_dense(r, index, self.num_comp)
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 788b209..52ab423 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -167,6 +167,7 @@ class SequenceReader(object):
         else:
             x, keys = self._read_subseqs_random_1seq()
             
+        x = self._apply_preproc(x)
         self.cur_batch +=1
 
         if return_3d:
@@ -177,10 +178,18 @@ class SequenceReader(object):
 
 
     
+    def _apply_preproc(self, x):
+        if self.preproc is None:
+            return x
+        return [self.preproc.predict(x_i) for x_i in x]
+
+
+
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        return self.r.read([key], field=self.field, return_tensor=False)[0], key
+        x = self.r.read([key], field=self.field, return_tensor=False)
+        return self._apply_preproc(x)[0], key
     
 
     
-- 
2.43.0


From cc389930d5b02f5586c0280ab292ab2b595d00d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 144/174] fix: full covariance GMM is loaded from a Kaldi text
 file

---
 hyperion/pdfs/mixtures/gmm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index b634da9..9670977 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -300,7 +300,7 @@ class GMM(ExpFamilyMixture):
                         if x_dim == 0:
                             x_dim = len(fields)
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
-                            eta2 = np.zeros((num_comp, int((x_dim**2+3*x_dim)/2)), dtype=float_cpu())
+                            eta2 = np.zeros((num_comp, int((x_dim**2+x_dim)/2)), dtype=float_cpu())
                         
                         assert(len(fields) == x_dim or len(fields) == x_dim+1)
                         eta1[k] = [ float(v) for v in fields[:x_dim] ]
@@ -311,6 +311,9 @@ class GMM(ExpFamilyMixture):
                         for j in xrange(x_dim):
                             line = f.readline()
                             fields = line.split()
+                            if j == 0 and fields == ['[']:
+                                line = f.readline()
+                                fields = line.split()
                             if j < x_dim -1:
                                 assert(len(fields) == j+1)
                             else:
-- 
2.43.0


From bb23fac02cdb15f11ef26b9efdf11e5cad1676a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:57 +0000
Subject: [PATCH 145/174] fix: Kaldi mixtures with one component can be loaded

---
 hyperion/pdfs/mixtures/gmm.py          | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 9670977..74f42c3 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -298,7 +298,7 @@ class GMM(ExpFamilyMixture):
                         line = f.readline()
                         fields = line.split()
                         if x_dim == 0:
-                            x_dim = len(fields)
+                            x_dim = len(fields) - fields.count(']')
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                             eta2 = np.zeros((num_comp, int((x_dim**2+x_dim)/2)), dtype=float_cpu())
                         
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 6d1f4a1..c1d338e 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -281,7 +281,7 @@ class GMMDiagCov(ExpFamilyMixture):
                         line = f.readline()
                         fields = line.split()
                         if x_dim == 0:
-                            x_dim = len(fields)
+                            x_dim = len(fields) - fields.count(']')
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                             eta2 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                         
-- 
2.43.0


From 8d20394af1d85f8928f1b211546e74fb5dbb38fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:42 +0000
Subject: [PATCH 146/174] fix: a batch of full sequences read after an error is
 not cut

---
 hyperion/helpers/sequence_post_reader.py | 2 +-
 hyperion/helpers/sequence_reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index 067274c..2e594eb 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -108,7 +108,7 @@ class SequencePostReader(SequenceReader):
                     j +=1
                     if j == self.batch_size:
                         break
-            assert(len(keys)==self.batch_size)
+        assert(len(keys)==self.batch_size)
 
         x = self.r.read(keys, field=self.field, return_tensor=False)
         r = self.post_r.read(keys, field='.r', return_tensor=False)
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 52ab423..ffc7448 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -208,7 +208,7 @@ class SequenceReader(object):
                     j +=1
                     if j == self.batch_size:
                         break
-            assert(len(keys)==self.batch_size)
+        assert(len(keys)==self.batch_size)
                 
         return self.r.read(keys, field=self.field, return_tensor=False), keys 
             
-- 
2.43.0


From 4ced7508495932f61c4f34202d79dd8e452a4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:06 +0000
Subject: [PATCH 147/174] fix: a mixture computes with the weights of its last
 training step

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 1 +
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index c1d338e..006b5aa 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -166,6 +166,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..8e8e484 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -99,6 +99,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
-- 
2.43.0


From 96fb8165a22c48a809ef6205a5493e6b3371227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:06 +0000
Subject: [PATCH 148/174] fix: training a full covariance GMM updates its
 weights

---
 hyperion/pdfs/mixtures/gmm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 74f42c3..c72aade 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -188,6 +188,10 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
-- 
2.43.0


From 121a294238d7f756d32be6231963c7d3d7c6c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:06 +0000
Subject: [PATCH 149/174] fix: components of a full covariance GMM are split by
 their deviations

---
 hyperion/pdfs/mixtures/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index c72aade..fb144f5 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -205,7 +205,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
-- 
2.43.0


From 9efe85bf0517eba8cb46983df914006be5812f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:06 +0000
Subject: [PATCH 150/174] fix: validation objective of mixtures is per
 validation sample

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 5db73b3..e3d0e9a 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -87,7 +87,7 @@ class ExpFamilyMixture(PDF):
         if x_val is None:
             return elbo, elbo/x.shape[0]
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x_val.shape[0]
 
 
         
-- 
2.43.0


From d9ee776543666dd6df44be65958557be262ee5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:25 +0000
Subject: [PATCH 151/174] fix: mixture components with too few samples are
 removed

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 9 ++++++---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 7 +++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 006b5aa..2e2bf45 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -162,9 +162,12 @@ class GMMDiagCov(ExpFamilyMixture):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:,None], 0, self.mu)
+                self.Lambda = np.where(N0[:,None], 1, self.Lambda)
+                self._Sigma = None
+                self._cholLambda = None
+                self._logLambda = None
             self.pi = N/np.sum(N)
             self._log_pi = None
             
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 8e8e484..52e7fdb 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -86,7 +86,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             S = S/N[:,None] - self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
-            Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
+            Spool = np.sum(N[N>0, None]*S[N>0], axis=0)/np.sum(N)
             self.Lambda=1/Spool
             self._Sigma = Spool
             self._cholLambda = None
@@ -95,9 +95,8 @@ class GMMTiedDiagCov(GMMDiagCov):
         if self.update_pi:
             N0 = N < self.min_N
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:,None], 0, self.mu)
             self.pi = N/np.sum(N)
             self._log_pi = None
             
-- 
2.43.0


From e36a441e7a1c7d6428b4605fe3f5cbd9b9d18ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:25 +0000
Subject: [PATCH 152/174] fix: options of a mixture survive splitting its
 components

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 9 +++++++++
 hyperion/pdfs/mixtures/gmm.py                | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py       | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py  | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index e3d0e9a..e0d6edf 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -419,6 +419,15 @@ class ExpFamilyMixture(PDF):
 
 
     
+    def _get_split_config(self):
+        return {'x_dim': self.x_dim, 'name': self.name,
+                'min_N': self.min_N, 'update_pi': self.update_pi,
+                'var_floor': self.var_floor,
+                'update_mu': self.update_mu,
+                'update_Lambda': self.update_Lambda}
+
+
+    
     @abstractmethod
     def Mstep(self, stats):
         pass
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index fb144f5..9cd5993 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -216,7 +216,7 @@ class GMM(ExpFamilyMixture):
                     std_dev = np.sum(v*factor, axis=1)
                     mu[K*g+k] += std_dev
 
-        config = self.get_config()
+        config = self._get_split_config()
         return GMM(pi=pi, mu=mu, Lambda=Lambda, **config)
     
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 2e2bf45..e05b2a7 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -192,7 +192,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
+        config = self._get_split_config()
         return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, **config)
         
 
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 52e7fdb..14e253a 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -120,7 +120,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
+        config = self._get_split_config()
         return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
         
 
-- 
2.43.0


From 5fcf088cb2cdd4252d28fcf2f6d8b2c159d55da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:25 +0000
Subject: [PATCH 153/174] fix: tied covariance GMM with one component is
 initialized from data

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 14e253a..ee9603e 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -56,7 +56,7 @@ class GMMTiedDiagCov(GMMDiagCov):
         if num_comp==1:
             self.pi=np.array([1], dtype=float_cpu())
             self.mu=np.mean(x, axis=0, keepdims=True)
-            self.Lambda=1/np.std(x, axis=0, keepdims=True)**2
+            self.Lambda=1/np.std(x, axis=0)**2
             return
 
         kmeans = KMeans(num_clusters=num_comp)
-- 
2.43.0


From 62ecabbb6ea4ae21508e4ba6a5a6fef2db23d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 154/174] fix: normalized statistics of Gaussians and mixtures

---
 hyperion/pdfs/core/normal.py           |  8 ++++----
 hyperion/pdfs/mixtures/gmm.py          | 11 ++++++-----
 hyperion/pdfs/mixtures/gmm_diag_cov.py |  4 ++--
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 110ce6e..072441e 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 9cd5993..242b3d6 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,13 +153,14 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S = S.copy()
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
                 S[k] = symmat2vec(SS)
         if return_order2:
             return N, self.stack_suff_stats(F_norm, S)
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index e05b2a7..84f4f48 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From 3df423dda8d50df70c8d2a55760339fede4b7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 155/174] fix: covariances are estimated around means that are
 not updated

---
 hyperion/pdfs/core/normal.py                | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py       | 2 +-
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 072441e..e642ba1 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S += np.outer(self.mu,self.mu) - Fmu - Fmu.T
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 7575143..10b5f3d 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N-2*self.mu*F/N+self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 242b3d6..26102ff 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -179,7 +179,8 @@ class GMM(ExpFamilyMixture):
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                Fmu = np.outer(F[k]/N[k], self.mu[k])
+                C[k] += np.outer(self.mu[k],self.mu[k]) - Fmu - Fmu.T
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             for k in xrange(self.num_comp):
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 84f4f48..1f92b40 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index ee9603e..267057e 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = S/N[:,None] - 2*self.mu*F/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[N>0, None]*S[N>0], axis=0)/np.sum(N)
-- 
2.43.0


From dec1d097af7cdc7f44595bd113b73bbc699c1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 156/174] fix: training a full covariance GMM does not change
 the precisions it was made from

---
 hyperion/pdfs/mixtures/gmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 26102ff..7288b2c 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -183,6 +183,7 @@ class GMM(ExpFamilyMixture):
                 C[k] += np.outer(self.mu[k],self.mu[k]) - Fmu - Fmu.T
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
+            self.Lambda = np.zeros_like(C)
             for k in xrange(self.num_comp):
                 C[k] = fullcov_varfloor(C[k], cholfloor, F_is_chol=True)
                 self.Lambda[k] = invert_pdmat(C[k], return_inv=True)[-1]
-- 
2.43.0


From 75fa9a2b47c4c66f77af5fbde803dfcde6e50cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:01 +0000
Subject: [PATCH 157/174] fix: training a PLDA does not change the mean it was
 made from

---
 hyperion/pdfs/plda/plda.py  | 4 ++--
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index bfb3550..42f7f82 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -362,8 +362,8 @@ class PLDA(PLDABase):
         chol_Cov_z = sla.cholesky(Cov_z, lower=False, overwrite_a=True)
         
         if self.update_mu:
-            self.mu += (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
-                        np.dot(mu_z, self.U))
+            self.mu = (self.mu + np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
+                       np.dot(mu_z, self.U))
 
         if self.update_V:
             self.V = np.dot(chol_Cov_y, self.V + np.dot(H.T, self.U))
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 85fc586..a85673b 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -238,7 +238,7 @@ class SPLDA(PLDABase):
         mu_y = y_acc/M
         
         if self.update_mu:
-            self.mu += np.dot(mu_y, self.V)
+            self.mu = self.mu + np.dot(mu_y, self.V)
 
         if self.update_V:
             Cov_y = Py/M - np.outer(mu_y, mu_y)
-- 
2.43.0


From 47da68828b62d416a80dcb410a3fa2a2e37a5f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:12 +0000
Subject: [PATCH 158/174] fix: the within-class covariance of an FRPLDA counts
 the uncertainty of the class means

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 9402119..97e98f2 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From 8cd8315f156ed11767a460d1d48cb3defac15d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:57 +0000
Subject: [PATCH 159/174] fix: minimum divergence steps of PLDA that keep the
 mean do not lower the evidence

---
 hyperion/pdfs/plda/plda.py  | 16 ++++++++++++----
 hyperion/pdfs/plda/splda.py |  4 +++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 42f7f82..e9304e3 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -346,16 +346,24 @@ class PLDA(PLDABase):
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py, Rz1, Rz, Ryz, Cz = stats
         mu_y = y_acc/M
-        Cov_y = Py/M - np.outer(mu_y, mu_y)
+        Cov_y = Py/M
+        R = Ry
+        Rzy = Ryz.T
+        if self.update_mu:
+            Cov_y = Cov_y - np.outer(mu_y, mu_y)
+            R = Ry - np.outer(Ry1,Ry1)/N
+            Rzy = Rzy - np.outer(Rz1, Ry1)/N
         chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
 
-        R = Ry - np.outer(Ry1,Ry1)/N
         mult_iR = invert_pdmat(R, right_inv=True)[0]
-        H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        H = mult_iR(Rzy)
         if not self.update_V:
             # what z has in common with y can only go into V
             H = np.zeros_like(H)
-        mu_z = (Rz1 - np.dot(Ry1, H.T))/N
+        if self.update_mu:
+            mu_z = (Rz1 - np.dot(Ry1, H.T))/N
+        else:
+            mu_z = np.zeros_like(Rz1)
         RzyH = np.dot(Ryz.T, H.T)
         Cov_z = ((Rz - RzyH - RzyH.T + np.dot(np.dot(H,Ry), H.T))/N -
                  np.outer(mu_z, mu_z))
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index a85673b..ed34474 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -241,7 +241,9 @@ class SPLDA(PLDABase):
             self.mu = self.mu + np.dot(mu_y, self.V)
 
         if self.update_V:
-            Cov_y = Py/M - np.outer(mu_y, mu_y)
+            Cov_y = Py/M
+            if self.update_mu:
+                Cov_y = Cov_y - np.outer(mu_y, mu_y)
             chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
             self.V = np.dot(chol_Cov_y, self.V)
 
-- 
2.43.0


From 1694d06e4bc3d9abfe819f60ee65f1c147aa573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:57 +0000
Subject: [PATCH 160/174] fix: PLDA training uses the sample weights it is
 given

---
 hyperion/pdfs/plda/plda_base.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 1550f35..891d5ee 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -48,17 +48,17 @@ class PLDABase(PDF):
         
         assert(not(class_ids is  None and ptheta is None))
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert(not(class_ids_val is  None and ptheta_val is None))        
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
 
         if not self.is_init:
@@ -125,17 +125,17 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
@@ -174,24 +174,24 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
         if x0 is not None:
             assert not(class_ids0 is  None and ptheta0 is None)
             if class_ids0 is None:
-                D0 = self.compute_stats_soft(x0, ptheta0)
+                D0 = self.compute_stats_soft(x0, ptheta0, sample_weight0)
             else:
-                D0 = self.compute_stats_hard(x0, class_ids0)
+                D0 = self.compute_stats_hard(x0, class_ids0, sample_weight0)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
-- 
2.43.0


From 14a7abc78095d1952ab7b45be5add9c4f37fab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:06 +0000
Subject: [PATCH 161/174] fix: filter_roc returns the thinned curve with its
 last point

---
 hyperion/metrics/roc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..a93c085 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -180,8 +180,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From c0fb3a946ced82bc58eb3206486b31ae3e15faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:06 +0000
Subject: [PATCH 162/174] fix: the area under the ROC convex hull is that of
 its trapezoids

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index a93c085..7533ad5 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From 6844c0a6db3c04d0fbc882ed64d5867b1e5cb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:06 +0000
Subject: [PATCH 163/174] fix: Cllr charges non-targets for high scores

---
 hyperion/metrics/cllr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
-- 
2.43.0


From c692564514afd3249a07c2759427422193d6dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:06 +0000
Subject: [PATCH 164/174] fix: equal scores get equal optimal log-likelihood
 ratios

---
 hyperion/metrics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..1e2d273 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -149,7 +149,9 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    # the slope keeps the order of the scores, equal scores have equal llr
+    _, rank = np.unique(scores[sort_idx], return_inverse=True)
+    llr += 1e-6 * rank/n
 
     llr[sort_idx] = llr
     tar_llr = llr[:ntar]
-- 
2.43.0


From 4aba2a88f17505b651e53e889bd599eb4be0e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:06 +0000
Subject: [PATCH 165/174] fix: a prior given twice has the same actual DCF both
 times

---
 hyperion/metrics/dcf.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..213f2ed 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -100,20 +100,9 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
-    ttar = np.concatenate((t, tar))
-    ii = np.argsort(ttar, kind='mergesort')
-    r = np.zeros((num_priors + ntar), dtype='int32')
-    r[ii] = np.arange(1, num_priors + ntar + 1)
-    r = r[:num_priors]
-    n_miss = r - np.arange(num_priors, 0, -1)
-
-    
-    tnon = np.concatenate((t, non))
-    ii = np.argsort(tnon, kind='mergesort')
-    r = np.zeros((num_priors + nnon), dtype='int32')
-    r[ii] = np.arange(1, num_priors + nnon + 1)
-    r = r[:num_priors]
-    n_fa = nnon - r + np.arange(num_priors, 0, -1)
+    # targets below and non-targets not below each threshold
+    n_miss = np.searchsorted(np.sort(tar), t, side='left')
+    n_fa = nnon - np.searchsorted(np.sort(non), t, side='left')
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
     # n_fa2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From 5a6438d26fd41203c7a511a28e107e9705441188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:23 +0000
Subject: [PATCH 166/174] fix: print_confusion_matrix finds the standard output

---
 hyperion/metrics/confusion_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..7070c17 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
+
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
-- 
2.43.0


From 5ea6929ad2435d8ad2a1b6cf9cbba706758b5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:23 +0000
Subject: [PATCH 167/174] fix: cross-label confusion matrices of text labels

---
 hyperion/metrics/confusion_matrix.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 7070c17..f046804 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -69,16 +69,15 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
+    assert y_true.dtype.kind == y_pred.dtype.kind, 'y_true and y_pred labels does not have the same type'
+    assert labels_train.dtype.kind == labels_test.dtype.kind, 'Train and test labels does not have the same type'
+    assert labels_train.dtype.kind == y_pred.dtype.kind, 'Labels, y_true and y_pred does not have the same type'
 
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
         y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
+    elif y_true.dtype.kind == 'U':
         y_true = np.asarray(['TEST_' + s for s in y_true])
         y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
     else:
@@ -87,8 +86,7 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
     if issubclass(labels_train.dtype.type, np.integer):
         labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
+    elif labels_train.dtype.kind == 'U':
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
         labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
     else:
-- 
2.43.0


From a711716b38f34fdd6bdebc1272285902703b8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:23 +0000
Subject: [PATCH 168/174] fix: cross-label confusion matrices of any integer
 labels, which are not changed

---
 hyperion/metrics/confusion_matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index f046804..a342aa5 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -76,7 +76,10 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
+        # no train label is equal to a test label after adding this
+        used = np.concatenate((y_true, y_pred, labels_train, labels_test))
+        offset = np.max(used) - np.min(used) + 1
+        y_pred = y_pred + offset
     elif y_true.dtype.kind == 'U':
         y_true = np.asarray(['TEST_' + s for s in y_true])
         y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
@@ -85,7 +88,7 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
 
     if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
+        labels_train = labels_train + offset
     elif labels_train.dtype.kind == 'U':
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
         labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
-- 
2.43.0


From 3859c5128f29af8751a0622f98c44120338e572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:02 +0000
Subject: [PATCH 169/174] fix: optimal log-likelihood ratios go back to their
 own scores

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 1e2d273..8423806 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -153,7 +153,7 @@ def opt_loglr(tar, non, method='laplace'):
     _, rank = np.unique(scores[sort_idx], return_inverse=True)
     llr += 1e-6 * rank/n
 
-    llr[sort_idx] = llr
+    llr[sort_idx] = llr.copy()
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From 8e6af132d89999d5eb03bae026c1c0994346cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:02 +0000
Subject: [PATCH 170/174] fix: confusion matrices with weights or with classes
 that have no trials can be written

---
 hyperion/metrics/confusion_matrix.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index a342aa5..a0453ea 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -130,8 +130,7 @@ def plot_confusion_matrix(C, labels_true, labels_pred=None,
     plt.xticks(tick_marks_x, labels_pred, rotation=45)
     plt.yticks(tick_marks_y, labels_true)
 
-    normalized = np.all(C<=1)
-    fmt = '.2f' if normalized else 'd'
+    fmt = 'd' if issubclass(C.dtype.type, np.integer) else '.2f'
     thresh = np.max(C) / 2.
     for i in xrange(C.shape[0]):
         for j in xrange(C.shape[1]):
@@ -161,8 +160,7 @@ def write_confusion_matrix(f, C, labels_true, labels_pred=None):
     assert C.shape[0] == len(labels_true)
     assert C.shape[1] == len(labels_pred)
     
-    normalized = np.all(C<=1)
-    fmt = '.2f' if normalized else 'd'
+    fmt = 'd' if issubclass(C.dtype.type, np.integer) else '.2f'
 
     column_width = np.max([len(label) for label in labels_pred] + [6]) + 3
     empty_cell = ' ' * column_width
-- 
2.43.0


From 496b89516695e18b628865f487d21d94c22a8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:45 +0000
Subject: [PATCH 171/174] fix: filter_roc takes curves without redundant points

---
 hyperion/metrics/roc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 7533ad5..303ba4a 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -164,8 +164,9 @@ def filter_roc(p_miss,p_fa):
                             input vectors.  
     """
     out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
+    # when no point is redundant, there is one more than in the input
+    new_p_miss = np.append(p_miss, p_miss[-1])
+    new_p_fa = np.append(p_fa, p_fa[-1])
 
     for i in xrange(1,len(p_miss)):
         if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
-- 
2.43.0


From 9e97c5e8c3b08d5e5a401f416ad0cd1863877704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:49 +0000
Subject: [PATCH 172/174] fix: likelihood of vectors given the class of a PLDA
 with channel factors

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index e9304e3..aee92a3 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -413,7 +413,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From 1b2a4b15f31d78dfde28b8c0a4364731c502ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:41 +0000
Subject: [PATCH 173/174] fix: adaptive S-norm does not take missing cohort
 scores for the best ones

---
 hyperion/score_norm/adapt_s_norm.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 6c62506..7bfd775 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -33,15 +33,22 @@ class AdaptSNorm(ScoreNorm):
         else:
             nbest = self.nbest
 
+        # the missing scores are not among the best ones
+        rank_coh_test = scores_coh_test
+        rank_enr_coh = scores_enr_coh
         if mask_coh_test is not None:
+            rank_coh_test = np.where(mask_coh_test, scores_coh_test, -np.inf)
             scores_coh_test = np.where(mask_coh_test, scores_coh_test, 0)
         if mask_enr_coh is not None:
+            rank_enr_coh = np.where(mask_enr_coh, scores_enr_coh, -np.inf)
             scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
-        best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.flipud(np.argsort(rank_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[1]):
             best_idx_i = best_idx[:,i]
+            if mask_coh_test is not None:
+                best_idx_i = best_idx_i[mask_coh_test[best_idx_i,i]]
                 
             mu_z = np.mean(scores_enr_coh[:, best_idx_i],
                            axis=1, keepdims=True)
@@ -61,10 +68,12 @@ class AdaptSNorm(ScoreNorm):
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
-        best_idx = np.fliplr(np.argsort(scores_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.fliplr(np.argsort(rank_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
         scores_t_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[0]):
             best_idx_i = best_idx[i]
+            if mask_enr_coh is not None:
+                best_idx_i = best_idx_i[mask_enr_coh[i,best_idx_i]]
                 
             mu_z = np.mean(scores_coh_test[best_idx_i,:],
                            axis=0, keepdims=True)
-- 
2.43.0


From 25599cb316138b1b12cd27710121f9975e061a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:54 +0000
Subject: [PATCH 174/174] fix: binary accuracy of logits decides at zero

---
 hyperion/torch/metrics/accuracy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/metrics/accuracy.py b/hyperion/torch/metrics/accuracy.py
index e46e674..8780f5a 100644
--- a/hyperion/torch/metrics/accuracy.py
+++ b/hyperion/torch/metrics/accuracy.py
@@ -36,7 +36,7 @@ class BinaryAccuracy(TorchMetric):
 
 class BinaryAccuracyWithLogits(TorchMetric):
 
-    def __init__(self, weight=None, reduction='mean', thr=0.5):
+    def __init__(self, weight=None, reduction='mean', thr=0):
         super(BinaryAccuracyWithLogits, self).__init__(
             weight=weight, reduction=reduction)
         self.thr = thr
-- 
2.43.0

