From c006283bbd0040690cdf88fa82e675ca9bb404fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:45 +0000
Subject: [PATCH 01/20] fix: parallel_map accepts any iterable, not only sized
 sequences

---
 sureal/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..055d73d 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -226,7 +226,7 @@ def parallel_map(func, list_args, processes=None, pause_sec=0.01):
             sleep(pause_sec) # check every x sec
 
     # finally, collect results
-    rets = list(map(lambda idx: return_dict[idx], range(len(list_args))))
+    rets = list(map(lambda idx: return_dict[idx], range(len(list_idx_args))))
 
     return rets
 
-- 
2.43.0


From 46c78c639bc4ae40f8c8bcc494fe73e805e0e54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:23 +0000
Subject: [PATCH 02/20] fix: import_python_file loads the file's current
 content into a module of its own

---
 sureal/tools/misc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 055d73d..51c9e3f 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -1,6 +1,7 @@
 import os
 import subprocess
 import time
+import types
 import unittest
 from time import sleep
 import multiprocessing
@@ -108,17 +109,17 @@ def import_json_file(filepath):
 
 def import_python_file(filepath):
     """
-    Import a python file as a module.
+    Import a python file as a module. The module is a new one on every call,
+    made from the current content of the file, and not put in sys.modules, such
+    that it shares nothing with any other file of the same name.
     :param filepath:
     :return:
     """
-    filename = get_file_name_without_extension(filepath)
-    try:
-        from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
-    except ImportError:
-        import imp
-        ret = imp.load_source(filename, filepath)
+    with open(filepath, 'rb') as in_f:
+        source = in_f.read()
+    ret = types.ModuleType(get_file_name_without_extension(filepath))
+    ret.__file__ = filepath
+    exec(compile(source, filepath, 'exec'), ret.__dict__)
     return ret
 
 
-- 
2.43.0


From 18aec706d3a73002ded4915a2937aadd564e9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:23 +0000
Subject: [PATCH 03/20] fix: persist_to_dir never exposes or keeps a partly
 written entry

---
 sureal/tools/decorator.py | 11 +++++++----
 sureal/tools/misc.py      | 31 +++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..ea27781 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -5,6 +5,8 @@ import sys
 import warnings
 from functools import partial
 
+from sureal.tools.misc import atomic_write
+
 __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
@@ -47,12 +49,13 @@ def persist_to_dir(dir_name):
             h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             file_name = os.path.join(dir_name, h)
             if not os.path.exists(file_name):
-                if not os.path.exists(dir_name):
-                    os.makedirs(dir_name)
+                os.makedirs(dir_name, exist_ok=True)
                 res = original_func(*args)
-                json.dump(res, open(file_name, 'wt'))
+                with atomic_write(file_name) as out_f:
+                    json.dump(res, out_f)
             else:
-                res = json.load(open(file_name, 'rt'))
+                with open(file_name, 'rt') as in_f:
+                    res = json.load(in_f)
             return res
 
         return new_func
diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 51c9e3f..254af55 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -1,8 +1,11 @@
 import os
+import shutil
 import subprocess
 import time
 import types
 import unittest
+import uuid
+from contextlib import contextmanager
 from time import sleep
 import multiprocessing
 
@@ -123,6 +126,34 @@ def import_python_file(filepath):
     return ret
 
 
+@contextmanager
+def atomic_write(filepath):
+    """
+    Open a text file for writing, such that at any time filepath holds either
+    what it held before or, once the block has ended without error, everything
+    that was written.
+    :param filepath:
+    """
+    filepath = os.path.realpath(filepath)
+    if os.path.exists(filepath) and not os.path.isfile(filepath):  # device or pipe
+        with open(filepath, 'wt', encoding='utf-8') as out_f:
+            yield out_f
+        return
+    tmp_filepath = os.path.join(os.path.dirname(filepath), '.' + uuid.uuid4().hex + '.tmp')
+    try:
+        with open(tmp_filepath, 'xt', encoding='utf-8') as out_f:
+            yield out_f
+            out_f.flush()
+            os.fsync(out_f.fileno())
+        if os.path.exists(filepath):
+            shutil.copymode(filepath, tmp_filepath)
+        os.replace(tmp_filepath, filepath)
+    except BaseException:
+        if os.path.exists(tmp_filepath):
+            os.remove(tmp_filepath)
+        raise
+
+
 def get_cmd_option(argv, begin, end, option):
     '''
 
-- 
2.43.0


From 7e7018c8e9602f49abbeb7a098f1aec8e4fc52d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:23 +0000
Subject: [PATCH 04/20] fix: persist_to_file works on Python 3, saves
 atomically and never keeps what it could not save

---
 sureal/tools/decorator.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index ea27781..9eb6c7f 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -2,6 +2,7 @@ import os
 import json
 import hashlib
 import sys
+import threading
 import warnings
 from functools import partial
 
@@ -22,15 +23,23 @@ def persist_to_file(file_name):
             cache = {}
         else:
             try:
-                cache = json.load(open(file_name, 'rt'))
+                with open(file_name, 'rt') as in_f:
+                    cache = json.load(in_f)
             except (IOError, ValueError):
                 sys.exit(1)
 
+        lock = threading.Lock()
+
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
-                cache[h] = original_func(*args)
-                json.dump(cache, open(file_name, 'wt'))
+                res = original_func(*args)
+                with lock:
+                    if h not in cache:
+                        # remember the value only if it could be saved
+                        with atomic_write(file_name) as out_f:
+                            json.dump(dict(cache, **{h: res}), out_f)
+                        cache[h] = res
             return cache[h]
 
         return new_func
-- 
2.43.0


From c1542f2c2c2fa57db971977fb2a5461837bfc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:43 +0000
Subject: [PATCH 05/20] fix: an exported dataset is written completely or not
 at all, and undefined scores load back

---
 sureal/dataset_reader.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..0e447ef 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -4,7 +4,7 @@ import random
 
 import numpy as np
 
-from sureal.tools.misc import empty_object, get_unique_sorted_list
+from sureal.tools.misc import atomic_write, empty_object, get_unique_sorted_list
 from sureal.tools.decorator import memoized as persist, override
 from sureal.tools.misc import get_unique_sorted_list
 
@@ -12,6 +12,29 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+class _NonFiniteFloat(float):
+    """ A nan or inf, with a representation that can be read back. """
+
+    def __repr__(self):
+        return "float('{}')".format(float.__repr__(self))
+
+
+def _to_literal(obj):
+    """ Turn obj into plain data whose representation can be read back. """
+    if isinstance(obj, (np.ndarray, np.generic)):
+        obj = obj.tolist()
+    if isinstance(obj, dict):
+        return {_to_literal(k): _to_literal(v) for k, v in obj.items()}
+    elif isinstance(obj, list):
+        return [_to_literal(v) for v in obj]
+    elif isinstance(obj, tuple):
+        return tuple(_to_literal(v) for v in obj)
+    elif isinstance(obj, float) and not np.isfinite(obj):
+        return _NonFiniteFloat(obj)
+    else:
+        return obj
+
+
 class DatasetReader(object):
 
     def __init__(self, dataset, **kwargs):
@@ -90,26 +113,26 @@ class DatasetReader(object):
         assert (hasattr(dataset, 'ref_videos'))
         assert (hasattr(dataset, 'dis_videos'))
         # write out
-        with open(output_dataset_filepath, 'wt') as output_file:
+        with atomic_write(output_dataset_filepath) as output_file:
             for key in dataset.__dict__.keys():
                 if key != 'ref_videos' and key != 'dis_videos' \
                         and key != 'subjects' and not key.startswith('__'):
                     output_file.write('{} = '.format(key) + repr(
-                        dataset.__dict__[key]) + '\n')
+                        _to_literal(dataset.__dict__[key])) + '\n')
             output_file.write('\n')
             output_file.write('ref_videos = ' + pprint.pformat(
-                dataset.ref_videos) + '\n')
+                _to_literal(dataset.ref_videos)) + '\n')
             output_file.write('\n')
             output_file.write('dis_videos = ' + pprint.pformat(
-                dataset.dis_videos) + '\n')
+                _to_literal(dataset.dis_videos)) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
                 output_file.write('subjects = ' + pprint.pformat(
-                    dataset.subjects) + '\n')
+                    _to_literal(dataset.subjects)) + '\n')
             if 'license' in dataset.__dict__.keys():
                 output_file.write('\n')
                 output_file.write('license = ' + pprint.pformat(
-                    dataset.license) + '\n')
+                    _to_literal(dataset.license)) + '\n')
 
 
 class RawDatasetReader(DatasetReader):
-- 
2.43.0


From b7d36767c87b5ca05c5c133d59f68943741e7436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:43 +0000
Subject: [PATCH 06/20] fix: the command-line tools never leave a partly
 written JSON result

---
 sureal/__main__.py       | 3 ++-
 sureal/cmd_deprecated.py | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sureal/__main__.py b/sureal/__main__.py
index 2580201..fd23cf5 100755
--- a/sureal/__main__.py
+++ b/sureal/__main__.py
@@ -10,6 +10,7 @@ from sureal.pc_subjective_model import PairedCompSubjectiveModel
 from sureal.routine import run_subjective_models, \
     format_output_of_run_subjective_models
 from sureal.subjective_model import SubjectiveModel
+from sureal.tools.misc import atomic_write
 
 
 def main():
@@ -100,7 +101,7 @@ def main():
         DisplayConfig.show()
     else:
         os.makedirs(output_dir, exist_ok=True)
-        with open(os.path.join(output_dir, 'output.json'), 'w') as fp:
+        with atomic_write(os.path.join(output_dir, 'output.json')) as fp:
             json.dump(output, fp, indent=4)
         DisplayConfig.show(write_to_dir=output_dir)
         print(f'output is written to directory {output_dir}.')
diff --git a/sureal/cmd_deprecated.py b/sureal/cmd_deprecated.py
index ee9e297..467308f 100755
--- a/sureal/cmd_deprecated.py
+++ b/sureal/cmd_deprecated.py
@@ -6,7 +6,7 @@ import json
 
 from sureal.subjective_model import SubjectiveModel
 from sureal.routine import run_subjective_models
-from sureal.tools.misc import get_file_name_with_extension, get_cmd_option, cmd_option_exists
+from sureal.tools.misc import atomic_write, get_file_name_with_extension, get_cmd_option, cmd_option_exists
 from sureal.config import DisplayConfig
 
 __copyright__ = "Copyright 2016-2018, Netflix, Inc."
@@ -71,10 +71,9 @@ def main():
         DisplayConfig.show()
     else:
         print(("Output wrote to {}.".format(output_dir)))
-        if not os.path.exists(output_dir):
-            os.makedirs(output_dir)
+        os.makedirs(output_dir, exist_ok=True)
         DisplayConfig.show(write_to_dir=output_dir)
-        with open(os.path.join(output_dir, 'sureal.json'), 'w') as out_f:
+        with atomic_write(os.path.join(output_dir, 'sureal.json')) as out_f:
             json.dump(results[0], out_f, default=lambda o: '<not serializable>',
                       indent=4, sort_keys=True)
     return 0
-- 
2.43.0


From 41b6c44806f2e20e0933140ece42dd6b87930dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:58 +0000
Subject: [PATCH 07/20] fix: to_pc_dataset leaves the scores of the source
 dataset as they were

---
 sureal/dataset_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 0e447ef..03f20d8 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -424,6 +424,7 @@ class RawDatasetReader(DatasetReader):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
             # converting to dict_style
+            dis_videos = [dict(dis_video) for dis_video in dis_videos]
             for dis_video in dis_videos:
                 scores = dis_video['os']
                 dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
-- 
2.43.0


From 98552b72fbe38a399d071a15f40721927cffcea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:58 +0000
Subject: [PATCH 08/20] fix: to_combined_overlap_dataset shares no scores with
 its source datasets

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 03f20d8..5af18ec 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -586,14 +586,14 @@ class RawDatasetReader(DatasetReader):
                     new_dis_video = copy.deepcopy(vid1)
                     new_dis_video['content_id'] = new_content_id
 
-                    new_dis_video['os'].update(vid2['os'])  # combined the 'os's but overrode when subject is in both
+                    new_dis_video['os'].update(copy.deepcopy(vid2['os']))  # combined the 'os's but overrode when subject is in both
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
                             if not isinstance(vid1['os'][key], list):
                                 new_os = [vid1['os'][key]]
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = list(vid1['os'][key])
 
                             if isinstance(vid2['os'][key], list):
                                 new_dis_video['os'][key] = new_os + vid2['os'][key]
-- 
2.43.0


From eaf1be9e6013cd3ceb0a86256bba2bdeac7c8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 09/20] fix: memoized computes a call whose arguments cannot be
 hashed

---
 sureal/tools/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 9eb6c7f..38e55a6 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -108,7 +108,9 @@ class memoized(object):
         self.cache = {}
 
     def __call__(self, *args):
-        if not hasattr(args, "__hash__"):
+        try:
+            hash(args)
+        except TypeError:  # cannot serve as a key
             return self.func(*args)
         if args in self.cache:
             return self.cache[args]
-- 
2.43.0


From afdbe2bff4f426dc52dbbad7f93040b1903c2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:25 +0000
Subject: [PATCH 10/20] fix: callers of a paired-comparison reader do not share
 one score tensor

---
 sureal/dataset_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 5af18ec..752d0e5 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1038,12 +1038,17 @@ class PairedCompDatasetReader(RawDatasetReader):
                 'asset_id must be in [0, {}) but is {}'.format(num_dis_videos, dis_video['asset_id'])
 
     @property
-    @persist
     def opinion_score_3darray(self):
         """ 3darray storing raw opinion scores, with first dimension the distorted videos (PVS),
         second dimension the distorted videos (PVS) compared against, and third dimension the
         observers. """
 
+        # a copy, such that no caller can change the one that is kept
+        return self._get_opinion_score_3darray().copy()
+
+    @persist
+    def _get_opinion_score_3darray(self):
+
         list_observers = self._get_list_observers()
 
         # build dict: observer -> i_observer
-- 
2.43.0


From bcd3ad8291022a18e40db2e6824c30aa8cd371d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 11/20] fix: seeded sampling of paired comparisons uses a
 generator of its own

---
 sureal/dataset_reader.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 752d0e5..9de8ca4 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -447,9 +447,8 @@ class RawDatasetReader(DatasetReader):
             dis_video['os'] = dict()
             d_assetid_disvideoidx[dis_video['asset_id']] = i_dis_video
 
-        # set seed
-        if sampling_seed is not None:
-            random.seed(sampling_seed)
+        # with a seed, use a generator of its own
+        rng = random.Random(sampling_seed) if sampling_seed is not None else random
 
         # iterate through subj, compare asset_id pairs (upper triangle only), put pc results into new
         for subj in d_subj_assetid:
@@ -486,7 +485,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate -= 1.0
                             pass
                         elif true_sampling_rate > 0.0:  # true_sampling_rate is within (0.0, 1.0)
-                            if random.random() > true_sampling_rate:
+                            if rng.random() > true_sampling_rate:
                                 true_sampling_rate = 0.0
                                 continue
                             true_sampling_rate = 0.0
@@ -500,8 +499,8 @@ class RawDatasetReader(DatasetReader):
                         else:
                             true_cointoss_rate = None
 
-                        if true_cointoss_rate is not None and random.random() < true_cointoss_rate:
-                            if random.random() > 0.5:
+                        if true_cointoss_rate is not None and rng.random() < true_cointoss_rate:
+                            if rng.random() > 0.5:
                                 new_dis_videos[d_assetid_disvideoidx[assetid]]['os'][(subj, assetid2)] = 1
                             else:
                                 new_dis_videos[d_assetid_disvideoidx[assetid2]]['os'][(subj, assetid)] = 1
@@ -515,11 +514,11 @@ class RawDatasetReader(DatasetReader):
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
 
                             if noise_level is not None:
-                                score = mscore + random.gauss(0, noise_level)
-                                score2 = mscore2 + random.gauss(0, noise_level)
+                                score = mscore + rng.gauss(0, noise_level)
+                                score2 = mscore2 + rng.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + rng.gauss(0, per_asset_noise_levels[idx])
+                                score2 = mscore2 + rng.gauss(0, per_asset_noise_levels[idx2])
                             else:
                                 score = mscore
                                 score2 = mscore2
@@ -534,7 +533,7 @@ class RawDatasetReader(DatasetReader):
                                     new_dis_videos[d_assetid_disvideoidx[assetid]]['os'][(subj, assetid2)] = 0.5
                                     new_dis_videos[d_assetid_disvideoidx[assetid2]]['os'][(subj, assetid)] = 0.5
                                 elif tiebreak_method == 'coin_toss':
-                                    if random.random() > 0.5:
+                                    if rng.random() > 0.5:
                                         new_dis_videos[d_assetid_disvideoidx[assetid]]['os'][(subj, assetid2)] = 1
                                     else:
                                         new_dis_videos[d_assetid_disvideoidx[assetid2]]['os'][(subj, assetid)] = 1
-- 
2.43.0


From 123d841da6732cb39473e337c613dca406dea766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 12/20] fix: seeded synthetic and missing-data readers use a
 generator of their own

---
 sureal/dataset_reader.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 9de8ca4..d06f459 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -648,6 +648,13 @@ class MockedRawDatasetReader(RawDatasetReader):
         super().__init__(dataset)
         self._assert_input_dict()
 
+    def _get_random_generator(self):
+        """ With a seed, a generator of its own, else numpy's global one. """
+        if self.input_dict.get('seed') is not None:
+            return np.random.RandomState(self.input_dict['seed'])
+        else:
+            return np.random
+
     def to_dataset(self):
         """
         Override DatasetReader.to_dataset(). Need to overwrite dis_video['os']
@@ -716,8 +723,7 @@ class SyntheticRawDatasetReader(MockedRawDatasetReader):
         content c's bias (mu_c) and ambiguity (delta_c).
         """
 
-        if 'seed' in self.input_dict:
-            np.random.seed(self.input_dict['seed'])
+        rng = self._get_random_generator()
 
         S = self.num_observers
         E = self.num_dis_videos
@@ -727,20 +733,20 @@ class SyntheticRawDatasetReader(MockedRawDatasetReader):
 
         b_s = np.array(self.input_dict['observer_bias'])
         sigma_s = np.array(self.input_dict['observer_inconsistency'])
-        x_es = np.tile(b_s, (E, 1)) + np.random.normal(0, 1, [E, S]) * np.tile(sigma_s, (E, 1))
+        x_es = np.tile(b_s, (E, 1)) + rng.normal(0, 1, [E, S]) * np.tile(sigma_s, (E, 1))
 
         mu_c = np.array(self.input_dict['content_bias'])
         delta_c = np.array(self.input_dict['content_ambiguity'])
         mu_c_e = np.array(list(map(lambda i: mu_c[i], self.content_id_of_dis_videos)))
         delta_c_e = np.array(list(map(lambda i: delta_c[i], self.content_id_of_dis_videos)))
-        y_es = np.tile(mu_c_e, (S, 1)).T + np.random.normal(0, 1, [E, S]) * np.tile(delta_c_e, (S, 1)).T
+        y_es = np.tile(mu_c_e, (S, 1)).T + rng.normal(0, 1, [E, S]) * np.tile(delta_c_e, (S, 1)).T
 
         z_es = q_es + x_es + y_es
 
         if 'quality_ambiguity' in self.input_dict:
             phi_e = np.array(self.input_dict['quality_ambiguity'])
             assert len(phi_e) == E
-            z_es += np.random.normal(0, 1, [E, S]) * np.tile(phi_e, (S, 1)).T
+            z_es += rng.normal(0, 1, [E, S]) * np.tile(phi_e, (S, 1)).T
 
         z_es_3d = np.zeros([E, S, 1])
         z_es_3d[:, :, 0] = z_es
@@ -758,6 +764,8 @@ class SyntheticLogisticRawDatasetReader(SyntheticRawDatasetReader):
         use logistic instead of
         """
 
+        rng = self._get_random_generator()
+
         S = self.num_observers
         E = self.num_dis_videos
 
@@ -766,13 +774,13 @@ class SyntheticLogisticRawDatasetReader(SyntheticRawDatasetReader):
 
         b_s = np.array(self.input_dict['observer_bias'])
         sigma_s = np.array(self.input_dict['observer_inconsistency'])
-        x_es = np.tile(b_s, (E, 1)) + np.random.logistic(0, 1, [E, S]) * np.tile(sigma_s / (np.pi / np.sqrt(3)), (E, 1))
+        x_es = np.tile(b_s, (E, 1)) + rng.logistic(0, 1, [E, S]) * np.tile(sigma_s / (np.pi / np.sqrt(3)), (E, 1))
 
         mu_c = np.array(self.input_dict['content_bias'])
         delta_c = np.array(self.input_dict['content_ambiguity'])
         mu_c_e = np.array(list(map(lambda i: mu_c[i], self.content_id_of_dis_videos)))
         delta_c_e = np.array(list(map(lambda i: delta_c[i], self.content_id_of_dis_videos)))
-        y_es = np.tile(mu_c_e, (S, 1)).T + np.random.logistic(0, 1, [E, S]) * np.tile(delta_c_e / (np.pi / np.sqrt(3)), (S, 1)).T
+        y_es = np.tile(mu_c_e, (S, 1)).T + rng.logistic(0, 1, [E, S]) * np.tile(delta_c_e / (np.pi / np.sqrt(3)), (S, 1)).T
 
         z_es = q_es + x_es + y_es
 
@@ -796,9 +804,8 @@ class MissingDataRawDatasetReader(MockedRawDatasetReader):
     def opinion_score_3darray(self):
         score_mtx = super(MissingDataRawDatasetReader, self).opinion_score_3darray
 
-        if 'seed' in self.input_dict:
-            np.random.seed(self.input_dict['seed'])
-        mask = np.random.uniform(size=score_mtx.shape)
+        rng = self._get_random_generator()
+        mask = rng.uniform(size=score_mtx.shape)
         mask[mask > self.input_dict['missing_probability']] = 1.0
         mask[mask <= self.input_dict['missing_probability']] = float('NaN')
 
-- 
2.43.0


From 579af632e07c11687f60cf41099570088df0986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:45 +0000
Subject: [PATCH 13/20] fix: bootstrapping uses generators of its own

---
 sureal/experimental.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sureal/experimental.py b/sureal/experimental.py
index bb0e332..33f7f5a 100644
--- a/sureal/experimental.py
+++ b/sureal/experimental.py
@@ -77,8 +77,7 @@ class MaximumLikelihoodEstimationModelWithBootstrapping(MaximumLikelihoodEstimat
         for ibootstrap in range(n_bootstrap):
             print(f"Bootstrap with seed {ibootstrap}")
 
-            np.random.seed(ibootstrap)
-            selected_subjects = np.random.choice(range(n_subj), size=n_subj, replace=True)
+            selected_subjects = np.random.RandomState(ibootstrap).choice(range(n_subj), size=n_subj, replace=True)
 
             select_subj_reader = SelectSubjectRawDatasetReader(
                 dataset, input_dict={'selected_subjects': selected_subjects})
@@ -110,8 +109,7 @@ class MaximumLikelihoodEstimationModelWithBootstrapping(MaximumLikelihoodEstimat
         for ibootstrap in range(n_bootstrap):
             print(f"Bootstrap with seed {ibootstrap}")
 
-            np.random.seed(ibootstrap)
-            selected_dis_videos = np.random.choice(range(n_dis_videos), size=n_dis_videos, replace=True)
+            selected_dis_videos = np.random.RandomState(ibootstrap).choice(range(n_dis_videos), size=n_dis_videos, replace=True)
 
             select_dis_video_reader = SelectDisVideoRawDatasetReader(
                 dataset, input_dict={'selected_dis_videos': selected_dis_videos})
-- 
2.43.0


From 2e59e41aaa84bd96dd5989a48fa4d05a45145195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:55 +0000
Subject: [PATCH 14/20] fix: seeded subject subsampling uses a generator of its
 own

---
 sureal/routine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..9470206 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -1038,9 +1038,9 @@ def get_sample_stats(datasets, subjective_model_classes, do_plot=False, plot_typ
             dataset_reader = RawDatasetReader(dataset, input_dict=dataset_reader_info_dict)
             num_subj = dataset_reader.num_observers
             frac_num_subj = int(num_subj * subj_fraction)
-            if random_seed is not None:
-                    np.random.seed(random_seed)
-            selected_subjects = np.random.choice(list(range(num_subj)), size=frac_num_subj, replace=False)
+            # with a seed, use a generator of its own
+            rng = np.random.RandomState(random_seed) if random_seed is not None else np.random
+            selected_subjects = rng.choice(list(range(num_subj)), size=frac_num_subj, replace=False)
             dataset_reader_info_dict_new = dataset_reader_info_dict.copy()
             dataset_reader_info_dict_new['selected_subjects'] = selected_subjects
             dataset, subjective_models, results = run_subjective_models(
-- 
2.43.0


From e1693899316375f239706c90c9710c3c4a68f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:06 +0000
Subject: [PATCH 15/20] fix: mos_to_sureal writes the videos in the same order
 on every run

---
 resource/util/mos_to_sureal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resource/util/mos_to_sureal.py b/resource/util/mos_to_sureal.py
index 8ab03c8..8a5e0a5 100755
--- a/resource/util/mos_to_sureal.py
+++ b/resource/util/mos_to_sureal.py
@@ -111,7 +111,7 @@ def convert_file(
         hrc_ids.add(hrc_id)
 
     # gather list of reference contents
-    for src_id in src_ids:
+    for src_id in sorted(src_ids):
         output_data["ref_videos"].append(
             {
                 "content_id": int(re.search(r"\d+", src_id).group(0)),
@@ -121,7 +121,7 @@ def convert_file(
         )
 
     # gather list of "distorted" videos, aka PVSes
-    for pvs_id in pvs_ids:
+    for pvs_id in sorted(pvs_ids):
         pvs_id, _, src_id, hrc_id = get_ids_from_pvs(pvs_id)
 
         # check all records for the PVS ID
-- 
2.43.0


From 822060dcb4ed41aaf36e230f691b7ed9371b1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:46 +0000
Subject: [PATCH 16/20] fix: to_dictionary_style_dataset shared repeated scores
 with its source

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index d06f459..8ec7a2a 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -627,7 +627,7 @@ class RawDatasetReader(DatasetReader):
 
                 for idx, score in enumerate(dis_video['os']):
                     subj_name = self.dataset.dataset_name + '_subject' + str(idx)
-                    new_dis_video['os'][subj_name] = score
+                    new_dis_video['os'][subj_name] = copy.deepcopy(score)
 
                 newone.dis_videos.append(new_dis_video)
 
-- 
2.43.0


From ae04d12783ffa45c8bdb3001d905d18334a87890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 17/20] fix: callers of a function cached in a file do not
 share one cached value

---
 sureal/tools/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 38e55a6..61bcaed 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import json
 import hashlib
@@ -39,8 +40,8 @@ def persist_to_file(file_name):
                         # remember the value only if it could be saved
                         with atomic_write(file_name) as out_f:
                             json.dump(dict(cache, **{h: res}), out_f)
-                        cache[h] = res
-            return cache[h]
+                        cache[h] = copy.deepcopy(res)
+            return copy.deepcopy(cache[h])  # callers may change what they are given
 
         return new_func
 
-- 
2.43.0


From 419684a1f47b9ab09fe3b71d28259d724490d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:40 +0000
Subject: [PATCH 18/20] fix: JSON dataset files are read as UTF-8, whatever the
 locale's encoding

---
 sureal/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 254af55..45265df 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -104,7 +104,7 @@ def import_json_file(filepath):
     """
     import json
     from argparse import Namespace
-    with open(filepath, 'r') as in_f:
+    with open(filepath, 'r', encoding='utf-8') as in_f:
         ret = json.load(in_f)
     ns = Namespace(**ret)  # convert dict to namespace
     return ns
-- 
2.43.0


From 9fe3867c2d871e12c9965b90f636f60db90dcbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:40 +0000
Subject: [PATCH 19/20] fix: visualize_pc_dataset leaves the default color map
 as it was

---
 sureal/routine.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 9470206..5eb6274 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -742,11 +742,10 @@ def visualize_pc_dataset(dataset_filepath):
     mtx_pvs_pvs = np.nansum(tensor_pvs_pvs_subject, axis=2) \
                   / (np.nansum(tensor_pvs_pvs_subject, axis=2) +
                      np.nansum(tensor_pvs_pvs_subject, axis=2).transpose())
-    plt.imshow(mtx_pvs_pvs, interpolation='nearest')
+    plt.imshow(mtx_pvs_pvs, interpolation='nearest', cmap='jet')
     plt.title(r'Paired Comparison Winning Rate')
     plt.ylabel(r"PVS ($j$)")
     plt.xlabel(r"PVS ($j'$) [Compared Against]")
-    plt.set_cmap('jet')
     plt.colorbar()
     plt.tight_layout()
 
-- 
2.43.0


From b067587027cc69bb8ec23d82c709eac5814bb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:40 +0000
Subject: [PATCH 20/20] fix: a function marked deprecated leaves the warning
 filters as they were

---
 sureal/tools/decorator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 61bcaed..d1ded4b 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -80,10 +80,10 @@ def deprecated(func):
     """
 
     def new_func(*args, **kwargs):
-        warnings.simplefilter('always', DeprecationWarning) # turn off filter
-        warnings.warn("Call to deprecated function {}.".format(func.__name__),
-                      category=DeprecationWarning, stacklevel=2)
-        warnings.simplefilter('default', DeprecationWarning) # reset filter
+        with warnings.catch_warnings():
+            warnings.simplefilter('always', DeprecationWarning) # turn off filter
+            warnings.warn("Call to deprecated function {}.".format(func.__name__),
+                          category=DeprecationWarning, stacklevel=2)
         return func(*args, **kwargs)
 
     new_func.__name__ = func.__name__
-- 
2.43.0

