From ff170f4829ac2dddf81c4a8fc071689da669b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 01/10] fix: read every subject's votes of a list-style dataset
 when a subclass overrides num_observers

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..49795e6 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -179,7 +179,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(len(dis_video['os'])):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -214,7 +214,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(len(dis_video['os'])):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From 507c12b16658e66d1f59eeae0a81be1884e14e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 02/10] fix: to_pc_dataset must not rewrite the votes of the
 reader's own dataset

---
 sureal/dataset_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 49795e6..c28516e 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -401,6 +401,7 @@ class RawDatasetReader(DatasetReader):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
             # converting to dict_style
+            dis_videos = copy.deepcopy(dis_videos)
             for dis_video in dis_videos:
                 scores = dis_video['os']
                 dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
-- 
2.43.0


From 1dab9237d6b48c18471cc02754a51e1d44a102e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 03/10] fix: combining datasets must not append to the votes of
 the first dataset, and must flatten tuples of votes

---
 sureal/dataset_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index c28516e..a83ce19 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -567,13 +567,13 @@ class RawDatasetReader(DatasetReader):
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
+                            if not isinstance(vid1['os'][key], (list, tuple)):
                                 new_os = [vid1['os'][key]]
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = list(vid1['os'][key])
 
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
+                            if isinstance(vid2['os'][key], (list, tuple)):
+                                new_dis_video['os'][key] = new_os + list(vid2['os'][key])
                             else:
                                 new_os.append(vid2['os'][key])
                                 new_dis_video['os'][key] = new_os
-- 
2.43.0


From 4fbf5da5c948ab1d0bd56205e0e1b71b15832b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 04/10] fix: index paired comparisons by position, not by
 asset_id, on both axes

---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index a83ce19..f5df351 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1028,13 +1028,19 @@ class PairedCompDatasetReader(RawDatasetReader):
         for i_observer, observer in enumerate(list_observers):
             dict_observer_to_iobserver[observer] = i_observer
 
+        # build dict: asset_id -> i_dis_video
+        dict_assetid_to_idisvideo = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_idisvideo[dis_video['asset_id']] = i_dis_video
+
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, asset_id_j = key
+                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                 pvs_i = i_dis_video
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
-- 
2.43.0


From 4af0ee4907fb6767cbd769f5182c3f77a7430d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 05/10] fix: look up per-asset paired comparison parameters by
 the asset's position in the dataset

---
 sureal/dataset_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index f5df351..134fd04 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -451,7 +451,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate = sampling_rate
                         elif per_asset_sampling_rates is not None:
                             # the true sampling rate of a pair is the mean of the sampling rate of the two assets:
-                            true_sampling_rate = (per_asset_sampling_rates[idx] + per_asset_sampling_rates[idx2]) / 2.0
+                            true_sampling_rate = (per_asset_sampling_rates[d_assetid_disvideoidx[assetid]] + per_asset_sampling_rates[d_assetid_disvideoidx[assetid2]]) / 2.0
                         else:
                             assert False
                     else:
@@ -473,7 +473,7 @@ class RawDatasetReader(DatasetReader):
                         if cointoss_rate is not None:
                             true_cointoss_rate = cointoss_rate
                         elif per_asset_cointoss_rates is not None:
-                            true_cointoss_rate = (per_asset_cointoss_rates[idx] + per_asset_cointoss_rates[idx2]) / 2.0
+                            true_cointoss_rate = (per_asset_cointoss_rates[d_assetid_disvideoidx[assetid]] + per_asset_cointoss_rates[d_assetid_disvideoidx[assetid2]]) / 2.0
                         else:
                             true_cointoss_rate = None
 
@@ -485,8 +485,8 @@ class RawDatasetReader(DatasetReader):
                         else:
 
                             if per_asset_mean_scores is not None:
-                                mscore = per_asset_mean_scores[assetid]
-                                mscore2 = per_asset_mean_scores[assetid2]
+                                mscore = per_asset_mean_scores[d_assetid_disvideoidx[assetid]]
+                                mscore2 = per_asset_mean_scores[d_assetid_disvideoidx[assetid2]]
                             else:
                                 mscore = d_subj_assetid[subj][assetid]['score']
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
@@ -495,8 +495,8 @@ class RawDatasetReader(DatasetReader):
                                 score = mscore + random.gauss(0, noise_level)
                                 score2 = mscore2 + random.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + random.gauss(0, per_asset_noise_levels[d_assetid_disvideoidx[assetid]])
+                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[d_assetid_disvideoidx[assetid2]])
                             else:
                                 score = mscore
                                 score2 = mscore2
-- 
2.43.0


From e91bed5b29e8095fdd8b96de31498fcb0b3404e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 06/10] fix: look up reference scores of the videos the reader
 presents

---
 sureal/subjective_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 1d82c74..079c894 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -99,7 +99,7 @@ class SubjectiveModel(TypeVersionEnabled):
     @staticmethod
     def _get_ref_mos(dataset_reader, mos):
         ref_mos = []
-        for dis_video in dataset_reader.dataset.dis_videos:
+        for dis_video in dataset_reader.dis_videos:
             # get the dis video's ref video's mos
             curr_content_id = dis_video['content_id']
             ref_indices = indices(
-- 
2.43.0


From de9d1894237c32d484339c6d9e90fa24af01fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 07/10] fix: parallel_map accepts any iterable of arguments

---
 sureal/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..055d73d 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -226,7 +226,7 @@ def parallel_map(func, list_args, processes=None, pause_sec=0.01):
             sleep(pause_sec) # check every x sec
 
     # finally, collect results
-    rets = list(map(lambda idx: return_dict[idx], range(len(list_args))))
+    rets = list(map(lambda idx: return_dict[idx], range(len(list_idx_args))))
 
     return rets
 
-- 
2.43.0


From 2176e33e75883aa23800236676b4da8d550dbd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 08/10] fix: persist_to_file must hash an encoded key

---
 sureal/tools/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..d0fbb50 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -25,7 +25,7 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
                 json.dump(cache, open(file_name, 'wt'))
-- 
2.43.0


From 0206e67c796d5e4c186576a95c8610698e51af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 09/10] fix: density of the sum of two uniforms must be
 evaluated at the centred value

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..e38d6d8 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From 51809679b88b6b7b7c78bc83bb3a60805532e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:00 +0000
Subject: [PATCH 10/10] fix: votes written by to_dataset of a simulating reader
 can be read back when there are repetitions

---
 sureal/dataset_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 134fd04..832e75c 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -643,7 +643,8 @@ class MockedRawDatasetReader(RawDatasetReader):
         num_videos, num_subjects, max_repetitions = score_mtx.shape
         assert num_videos == len(newone.dis_videos)
         for scores, dis_video in zip(score_mtx, newone.dis_videos):
-            dis_video['os'] = list(scores)
+            # one score per subject, or the list of its repetitions (which a reader of newone can read back)
+            dis_video['os'] = [score[0] if max_repetitions == 1 else list(score) for score in scores]
 
         return newone
 
-- 
2.43.0

