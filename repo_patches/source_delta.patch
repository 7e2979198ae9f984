From f0e6b01cc3bcbd813db8d9a1ccc16f699839533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 01/71] fix: explode arrays even if the first line of the event
 has none

---
 trappy/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 40a6f9e..2c7ee7d 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -143,6 +143,10 @@ class Base(object):
         ret = defaultdict(int)
 
         for line in self.data_array:
+            # Cheap test first: most events don't have arrays
+            if "={" not in line:
+                continue
+
             while True:
                 match = re.search(pat_array, line)
                 if not match:
@@ -157,10 +161,6 @@ class Base(object):
 
                 line = line[match.end():]
 
-            # Stop scanning if the trace doesn't have arrays
-            if len(ret) == 0:
-                break
-
         return ret
 
     def append_data(self, time, comm, pid, cpu, line, data):
-- 
2.43.0


From d3f6a87abbce06a3c1f45d7c67a2f26da2bc3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 02/71] fix: drop empty arrays at the end of a line too

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 1d26fb5..b376560 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -437,7 +437,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
                     # Remove empty arrays from the trace
                     if "={}" in data_str:
-                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\} ", r"", data_str)
+                        data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
 
-- 
2.43.0


From 068db7b582f9f9dfe41bdd969cad96b122e7bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 03/71] fix: keep the text of free-form events as it is

---
 trappy/base.py   | 4 +++-
 trappy/ftrace.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 2c7ee7d..7cef08e 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -291,7 +291,9 @@ class Base(object):
         if not self.time_array:
             return
 
-        trace_arr_lengths = self.__get_trace_array_lengths()
+        # Fallback events are free-form, so they don't have arrays
+        trace_arr_lengths = {} if self.fallback else \
+            self.__get_trace_array_lengths()
 
         if trace_arr_lengths:
             for (idx, val) in enumerate(self.data_array):
diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index b376560..6b96cfc 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -436,7 +436,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
-                    if "={}" in data_str:
+                    if "={}" in data_str and not trace_class.fallback:
                         data_str = re.sub(r"[A-Za-z0-9_]+=\{\}( |$)", r"", data_str)
 
                     trace_class.append_data(timestamp, comm, pid, cpu, self.lines, data_str)
-- 
2.43.0


From 2e5fc9a80d0f34b5dbb4fcb4382cf4539deb55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 04/71] fix: intersect window and abs_window instead of taking
 the later end

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 6b96cfc..921cdc0 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -163,7 +163,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         max_window[0] = max(self.window[0] + self.basetime, self.abs_window[0])
 
         if (self.window[1] is not None) and (self.abs_window[1] is not None):
-            max_window[1] = max(self.window[1] + self.basetime, self.abs_window[1])
+            max_window[1] = min(self.window[1] + self.basetime, self.abs_window[1])
         elif self.window[1] is not None:
             max_window[1] = self.window[1] + self.basetime
         elif self.abs_window[1] is not None:
-- 
2.43.0


From f80cc5fba7311abb0d7470c4ebcf540b079b6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 05/71] fix: treat a window end of zero as an end

---
 trappy/ftrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 921cdc0..35f0e3e 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -181,7 +181,7 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         # Ensure it's sorted for good measure.
         trace_class.data_frame.sort_index(inplace=True)
 
-        if window[1]:
+        if window[1] is not None:
             trace_class.data_frame = trace_class.data_frame[
                 window[0]:window[1]]
         elif window[0]:
-- 
2.43.0


From ab9a981169cf8cbd40b85caf28a65f4797b7230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 06/71] fix: cache text columns so that they read back as the
 same text

---
 trappy/base.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 7cef08e..afa4a96 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -22,6 +22,8 @@ from builtins import zip
 from builtins import range
 from builtins import object
 from past.builtins import basestring
+import json
+import os
 import re
 import pandas as pd
 import warnings
@@ -318,7 +320,18 @@ class Base(object):
         :param fname: The name of the CSV file
         :type fname: str
         """
-        self.data_frame.to_csv(fname)
+        dfr = self.data_frame.copy()
+
+        # Write text as JSON, so that it can't be taken for something else
+        # (a number, a boolean, a missing value...) when reading it back.
+        for col in dfr.columns[dfr.dtypes == object]:
+            dfr[col] = [json.dumps(val) if isinstance(val, basestring) else val
+                        for val in dfr[col]]
+
+        # Don't leave an incomplete file around if we get interrupted
+        tmp_fname = fname + ".tmp"
+        dfr.to_csv(tmp_fname)
+        os.replace(tmp_fname, fname)
 
     def read_csv(self, fname):
         """Read the csv data into a DataFrame
@@ -326,13 +339,19 @@ class Base(object):
         :param fname: The name of the CSV file
         :type fname: str
         """
-        self.data_frame = pd.read_csv(
+        dfr = pd.read_csv(
             fname,
             index_col=0,
             # This ensures cached vs parsed timestamps are converted using the
             # same method, aka python's float() and not numpy's
             converters={'Time' : float}
         )
+
+        for col in dfr.columns[dfr.dtypes == object]:
+            dfr[col] = [json.loads(val) if isinstance(val, basestring) else val
+                        for val in dfr[col]]
+
+        self.data_frame = dfr
         self.optimize_dataframe()
 
     def normalize_time(self, basetime):
-- 
2.43.0


From 6906122db0892d4405b7cb0aaa35b835c1cbdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 07/71] fix: don't fail on caches without (complete, readable)
 metadata

---
 trappy/ftrace.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 35f0e3e..26b744b 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -79,6 +79,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     disable_cache = False
 
+    # Metadata without which a cache can't be used
+    _cache_metadata_keys = ("md5sum", "basetime", "endtime")
+
     def __init__(self, name="", normalize_time=True, scope="all",
                  events=[], window=(0, None), abs_window=(0, None)):
         super(GenericFTrace, self).__init__(name)
@@ -210,8 +213,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         return metadata
 
     def _is_cache_valid(self, cache_metadata):
-        for key in ["md5sum", "basetime", "endtime"]:
-            if key not in cache_metadata.keys():
+        for key in self._cache_metadata_keys:
+            if key not in cache_metadata:
                 warnstr = "Cache metadata is erroneous, invalidating cache"
                 warnings.warn(warnstr)
                 return False
@@ -276,10 +279,14 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         if not os.path.exists(cache_path):
             return
 
-        metadata = self._get_cache_metadata()
+        try:
+            metadata = self._get_cache_metadata()
+        except (OSError, ValueError):
+            # Missing or unreadable, e.g. because we got interrupted
+            metadata = {}
 
         if not self._is_cache_valid(metadata):
-            shutil.rmtree(cache_path)
+            shutil.rmtree(cache_path, ignore_errors=True)
             return
 
         # Load metadata
@@ -797,6 +804,8 @@ class FTrace(GenericFTrace):
 
     """
 
+    _cache_metadata_keys = GenericFTrace._cache_metadata_keys + ("ftrace",)
+
     def __init__(self, path=".", name="", normalize_time=True, scope="all",
                  events=[], window=(0, None), abs_window=(0, None)):
 
-- 
2.43.0


From 44ff177b90f6e2fd97cf953c62d76ccddccc9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 08/71] fix: set _version and _cpus on cached traces without
 them too

---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 26b744b..c453c87 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -936,9 +936,6 @@ class FTrace(GenericFTrace):
         metadata_keys = ["version", "cpus"]
         res = {}
 
-        for key in metadata_keys:
-            setattr(self, "_" + key, None)
-
         with io.open(self.file_to_parse, 'r', encoding='utf-8') as fin:
             for line in fin:
                 if not metadata_keys:
@@ -960,5 +957,9 @@ class FTrace(GenericFTrace):
     def __populate_trace_metadata(self, metadata):
         self.metadata = metadata
 
+        # Header entries that may be missing from the trace
+        for key in ("version", "cpus"):
+            setattr(self, "_" + key, None)
+
         for key, value in metadata.items():
             setattr(self, "_" + key, value)
-- 
2.43.0


From c150820dbbf3eabd8001b466ac7f8b11001806e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 09/71] fix: spread repeated times evenly and leave the given
 data alone

---
 trappy/utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/trappy/utils.py b/trappy/utils.py
index 0bc6302..c6dfcbd 100644
--- a/trappy/utils.py
+++ b/trappy/utils.py
@@ -18,6 +18,8 @@
 from __future__ import division
 from __future__ import unicode_literals
 
+import pandas as pd
+
 def listify(to_select):
     """Utitlity function to handle both single and
     list inputs
@@ -76,10 +78,10 @@ def handle_duplicate_index(data,
     # so that the order of events is preserved after fixing the duplicated
     # timestamp.
     if '__line' in data:
-        data.sort_values(['Time', '__line'], inplace=True)
+        data = data.sort_values(['Time', '__line'])
 
     index = data.index
-    new_index = index.values
+    new_index = index.tolist()
 
     dups = index[index.duplicated()].unique()
 
@@ -103,10 +105,11 @@ def handle_duplicate_index(data,
             delta = max_delta
 
         # Add a delta to the others
-        dup_index_left += 1
-        while dup_index_left <= dup_index_right:
-            new_index[dup_index_left] += delta
-            delta += delta
-            dup_index_left += 1
+        for step in range(1, num_dups):
+            new_index[dup_index_left + step] += step * delta
+
+    data = data.copy()
+    if len(dups):
+        data.index = pd.Index(new_index, name=index.name)
 
-    return data.reindex(new_index)
+    return data
-- 
2.43.0


From 1bcad958251d3bc9806169877e949712da399229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 10/71] fix: keep free text that starts with a capital letter

---
 trappy/systrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 41d806f..8f9ea32 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -21,7 +21,7 @@ from trappy.ftrace import GenericFTrace
 import re
 
 SYSTRACE_EVENT = re.compile(
-    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)\|(?P<func>[^|]*)(\|(?P<data>.*))?)?')
+    r'^(?P<event>[A-Z])(\|(?P<pid>\d+)(\|(?P<func>[^|]*)(\|(?P<data>.*))?)?)?$')
 
 class drop_before_trace(object):
     """Object that, when called, returns True if the line is not part of
-- 
2.43.0


From cefbb0085fe57b0832c7248f46f419e4018cfaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 11/71] fix: open systraces that have no scheduler switches

---
 trappy/systrace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/systrace.py b/trappy/systrace.py
index 8f9ea32..4633b12 100644
--- a/trappy/systrace.py
+++ b/trappy/systrace.py
@@ -69,7 +69,8 @@ class SysTrace(GenericFTrace):
 
         try:
             self._cpus = 1 + self.sched_switch.data_frame["__cpu"].max()
-        except AttributeError:
+        except (AttributeError, KeyError):
+            # No sched_switch requested or none in the trace
             pass
 
     def trace_hasnt_started(self):
-- 
2.43.0


From bf5607f35dfe65be0e2eea1ba6a9a7e1364552df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 12/71] fix: get_pids() with pandas without .ix, no rows or
 numeric comms

---
 trappy/sched.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trappy/sched.py b/trappy/sched.py
index 425c2fd..371e63b 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -55,10 +55,14 @@ class SchedLoadAvgTask(Base):
     def get_pids(self, key=""):
         """Returns a list of (comm, pid) that contain
         'key' in their 'comm'."""
+        if self.data_frame.empty:
+            return []
+
         dfr = self.data_frame.drop_duplicates(subset=['comm', 'pid'])
-        dfr = dfr.ix[:, ['comm', 'pid']]
+        dfr = dfr.loc[:, ['comm', 'pid']]
 
-        return dfr[dfr['comm'].str.contains(key)].values.tolist()
+        # A comm that looks like a number is held as one
+        return dfr[dfr['comm'].astype(str).str.contains(key)].values.tolist()
 
 register_ftrace_parser(SchedLoadAvgTask, "sched")
 
-- 
2.43.0


From 57aab82c3e741bf058e99d50fbdd7e35116d166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 13/71] fix: don't take CPU masks for decimal or binary numbers

---
 trappy/base.py      | 6 +++++-
 trappy/cpu_power.py | 4 ++++
 trappy/sched.py     | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/trappy/base.py b/trappy/base.py
index afa4a96..9f1fb07 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -115,6 +115,9 @@ class Base(object):
 
     """
 
+    text_fields = ()
+    """Fields that are kept as text even if they look like a number"""
+
     def __init__(self, parse_raw=False, fallback=False):
         self.fallback = fallback
         self.tracer = None
@@ -231,7 +234,8 @@ class Base(object):
                 data_dict[prev_key] += ' ' + field
                 continue
             (key, value) = field.split('=', 1)
-            value = self.string_cast_int(value)
+            if key not in self.text_fields:
+                value = self.string_cast_int(value)
             data_dict[key] = value
             prev_key = key
         return data_dict
diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index 8117020..baf5b5f 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -108,6 +108,8 @@ class CpuOutPower(Base):
     pivot = "cpus"
     """The Pivot along which the data is orthogonal"""
 
+    text_fields = ("cpus",)
+
     def get_all_freqs(self, mapping_label):
         """Get a :mod:`pandas.DataFrame` with the maximum frequencies allowed by the governor
 
@@ -138,6 +140,8 @@ class CpuInPower(Base):
     pivot = "cpus"
     """The Pivot along which the data is orthogonal"""
 
+    text_fields = ("cpus",)
+
     def _get_load_series(self):
         """get a :mod:`pandas.Series` with the aggregated load"""
 
diff --git a/trappy/sched.py b/trappy/sched.py
index 371e63b..5ff6272 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -30,6 +30,8 @@ class SchedLoadAvgSchedGroup(Base):
 
     _cpu_mask_column = "cpus"
 
+    text_fields = (_cpu_mask_column,)
+
     pivot = "cpus"
     """The Pivot along which the data is orthogonal"""
 
-- 
2.43.0


From 87bf04e8d5dae9e735bc1122e86a06ce526983a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 14/71] fix: parse entries of system calls with negative
 numbers

---
 trappy/raw_syscalls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/raw_syscalls.py b/trappy/raw_syscalls.py
index dc256f2..1d64a7b 100644
--- a/trappy/raw_syscalls.py
+++ b/trappy/raw_syscalls.py
@@ -24,7 +24,7 @@ class SysEnter(Base):
     unique_word = "sys_enter"
     pivot = "pid"
     parse_raw = False
-    pat = re.compile(r"NR (\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)")
+    pat = re.compile(r"NR ([-+]?\d+) \(([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+), ([-+]?[\da-fA-F]+)\)")
 
     def __init__(self):
         super(SysEnter, self).__init__(parse_raw=self.parse_raw)
-- 
2.43.0


From 12b28e978f0824101813183a926b7be11ae2698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 15/71] fix: normalize the load if a labelled cluster has no
 events

---
 trappy/cpu_power.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/cpu_power.py b/trappy/cpu_power.py
index baf5b5f..661fd6e 100644
--- a/trappy/cpu_power.py
+++ b/trappy/cpu_power.py
@@ -182,6 +182,9 @@ class CpuInPower(Base):
         for cpumask in mapping_label:
             num_cpus = num_cpus_in_mask(cpumask)
             idx = dfr["cpus"] == cpumask
+            if not idx.any():
+                # Nothing to normalize for this cluster
+                continue
             max_freq = max(dfr[idx]["freq"])
             load_series[idx] = load_series[idx] / (max_freq * num_cpus)
 
-- 
2.43.0


From ea9205cce052f076f1373f033fa11e1a35b9972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 16/71] fix: tell apart columns of the same name in expressions
 with several events

---
 trappy/stats/grammar.py | 47 +++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 86c7144..ecc1130 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -345,6 +345,8 @@ class Parser(object):
         self._parse_expr = get_parse_expression(
             self._parse_func, self._parse_var_id)
         self._agg_df = pd.DataFrame()
+        # Names in _agg_df of the columns of each event
+        self._columns = {}
         self._pivot_set = set()
         self._limit = kwargs.get("limit", StatConf.REINDEX_LIMIT_DEFAULT)
         self._method = kwargs.get("method", StatConf.REINDEX_METHOD_DEFAULT)
@@ -444,35 +446,47 @@ class Parser(object):
         return pd.concat({StatConf.GRAMMAR_DEFAULT_PIVOT: data_frame[
                          [column]]}, axis=1).swaplevel(0, 1, axis=1)
 
+    def _get_class(self, event):
+        """Get the parser class for the event of an accessor"""
+
+        if event in self._pvars:
+            return self._pvars[event]
+        elif event in self.data.class_definitions:
+            return self.data.class_definitions[event]
+
+        try:
+            return str_to_attr(event)
+        except KeyError:
+            raise ValueError(
+                "Can't find parser class for event {}".format(event))
+
     def _pre_process(self, tokens):
         """Pre-process accessors for super-indexing"""
 
         params = tokens[0]
-        if params[1] in self._agg_df.columns:
-            return self._agg_df[params[1]]
-
-        event = params[0]
         column = params[1]
+        cls = self._get_class(params[0])
+        key = (cls.name, column)
 
-        if event in self._pvars:
-            cls = self._pvars[event]
-        elif event in self.data.class_definitions:
-            cls = self.data.class_definitions[event]
-        else:
-            try:
-                cls = str_to_attr(event)
-            except KeyError:
-                raise ValueError(
-                    "Can't find parser class for event {}".format(event))
+        if key in self._columns:
+            return self._agg_df[self._columns[key]]
 
         data_frame = self._pivot(cls, column)
+
+        name = column
+        if name in self._agg_df.columns:
+            # Another event has a column of that name
+            name = "{}:{}".format(cls.name, column)
+            data_frame = data_frame.rename(columns={column: name}, level=0)
+
         self._agg_df = pd.concat(
             [self._agg_df, data_frame], axis=1)
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
 
-        return self._agg_df[params[1]]
+        self._columns[key] = name
+        return self._agg_df[name]
 
     def _parse_for_info(self, tokens):
         """Parse Action for inspecting data accessors"""
@@ -513,7 +527,8 @@ class Parser(object):
             try:
                 return self._pvars[params]
             except KeyError:
-                return self._agg_df[params[1]]
+                key = (self._get_class(params[0]).name, params[1])
+                return self._agg_df[self._columns[key]]
 
     def _parse_func(self, tokens):
         """A function to parse a function string"""
-- 
2.43.0


From f4c8eb43459fc10fe9c76ecf96f1fb2bca49f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 17/71] fix: forward any callable, and call functions without
 arguments, in expressions

---
 trappy/stats/grammar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index ecc1130..93ae920 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -25,7 +25,6 @@ from pyparsing import Literal, delimitedList, Optional, oneOf, nums,\
     alphas, alphanums, Forward, Word, opAssoc, operatorPrecedence, Combine, Group
 import importlib
 import pandas as pd
-import types
 import numpy as np
 from trappy.stats.Topology import Topology
 from trappy.stats import StatConf
@@ -535,13 +534,12 @@ class Parser(object):
 
         params = tokens[0]
         func_name = params[0]
-        if func_name in self._pvars and isinstance(
-                self._pvars[func_name],
-                types.FunctionType):
+        if func_name in self._pvars and callable(self._pvars[func_name]):
             func = self._pvars[func_name]
         else:
             func = str_to_attr(params[0])
-        return func(*params[1])
+        args = params[1] if len(params) > 1 else []
+        return func(*args)
 
     def _get_data_frame(self, cls):
         """Get the data frame from the BareTrace object, applying the window
-- 
2.43.0


From 9cb995519126634f9815edd427e141bffd2b9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 18/71] fix: powers bind tighter than the sign of a number

---
 trappy/stats/grammar.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 93ae920..a62f9f2 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -49,10 +49,9 @@ EXP_END = Literal("]").suppress()
 # Grammar Tokens
 
 # DataFrame Accessor
-INTEGER = Combine(Optional(oneOf("+ -")) + Word(nums))\
-    .setParseAction(parse_num)
-REAL = Combine(Optional(oneOf("+ -")) + Word(nums) + "." +
-               Optional(Word(nums)) +
+# (signs are unary operators, so that powers bind tighter)
+INTEGER = Word(nums).setParseAction(parse_num)
+REAL = Combine(Word(nums) + "." + Optional(Word(nums)) +
                Optional(oneOf("e E") + Optional(oneOf("+ -")) + Word(nums)))\
     .setParseAction(parse_num)
 
@@ -60,8 +59,9 @@ REAL = Combine(Optional(oneOf("+ -")) + Word(nums) + "." +
 IDENTIFIER = Word(alphas + '_', alphanums + '_')
 # Python Like Function Name
 FUNC_NAME = delimitedList(IDENTIFIER, delim=".", combine=True)
-# Exponentiation operators
-EXPONENTIATION_OPS = "**"
+# Exponentiation operators (the exponent can have a sign)
+EXPONENTIATION_OPS = Combine(Literal("**") + Optional(oneOf("+ -")),
+                             adjacent=False)
 # Unary Operators
 UNARY_OPS = oneOf("+ -")
 # Multiplication/Division Operators
@@ -82,6 +82,8 @@ OPERATOR_MAP = {
     "//": lambda a, b: a // b,
     "%": lambda a, b: a % b,
     "**": lambda a, b: a ** b,
+    "**+": lambda a, b: a ** b,
+    "**-": lambda a, b: a ** -b,
     ">": lambda a, b: a > b,
     "<": lambda a, b: a < b,
     ">=": lambda a, b: a >= b,
-- 
2.43.0


From 407b4729523ea35122be9fb57aadf18e9160fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 19/71] fix: read numbers with an exponent but no fraction in
 expressions

---
 trappy/stats/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index a62f9f2..547eb7e 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -51,8 +51,9 @@ EXP_END = Literal("]").suppress()
 # DataFrame Accessor
 # (signs are unary operators, so that powers bind tighter)
 INTEGER = Word(nums).setParseAction(parse_num)
-REAL = Combine(Word(nums) + "." + Optional(Word(nums)) +
-               Optional(oneOf("e E") + Optional(oneOf("+ -")) + Word(nums)))\
+EXPONENT = oneOf("e E") + Optional(oneOf("+ -")) + Word(nums)
+REAL = Combine(Word(nums) +
+               ("." + Optional(Word(nums)) + Optional(EXPONENT) | EXPONENT))\
     .setParseAction(parse_num)
 
 # Generic Identifier
-- 
2.43.0


From ba800b809c58dcd29aa3af67b6ef16269f9241a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:53 +0000
Subject: [PATCH 20/71] fix: join events in expressions in the order of their
 times

With recent pandas, concatenating tables with different times appends the
missing times at the end, so that values were propagated in that order.
---
 trappy/stats/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 547eb7e..1de9387 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -482,7 +482,7 @@ class Parser(object):
             data_frame = data_frame.rename(columns={column: name}, level=0)
 
         self._agg_df = pd.concat(
-            [self._agg_df, data_frame], axis=1)
+            [self._agg_df, data_frame], axis=1).sort_index()
 
         if self._fill:
             self._agg_df = self._agg_df.fillna(method="pad")
-- 
2.43.0


From 0275c3f833f0133f9cd3c88fa9b2baf17ccea407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 21/71] fix: give triggers the values of their column

generate() looked for the name of the column in the value of the last
filter.
---
 trappy/stats/Trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 586a76c..05f3e03 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -105,7 +105,7 @@ class Trigger(object):
         data_frame = data_frame[mask]
 
         if isinstance(self._value, str):
-            return data_frame[value]
+            return data_frame[self._value]
         else:
             return pd.Series(self._value, index=data_frame.index)
 
-- 
2.43.0


From 81e5c5c0b71e3316725a70f114b09402d3a46cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 22/71] fix: accept any of the listed values in the filters of
 triggers

As everywhere else in trappy, a list of values means one of them; no row
can have all of them.
---
 trappy/stats/Trigger.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 05f3e03..22bd71f 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -130,6 +130,4 @@ def apply_filter_kv(key, value, data_frame, mask):
     if key not in data_frame.columns:
         return mask
     else:
-        for val in value:
-            mask = mask & (data_frame[key] == val)
-        return mask
+        return mask & data_frame[key].isin(value)
-- 
2.43.0


From 8287518141b2eda44ee4abbdac76ed668c0ee66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 23/71] fix: let triggers yield nothing if no event has the
 pivot value

An event without any rows has no columns, and masks without elements
selected no columns.
---
 trappy/stats/Trigger.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trappy/stats/Trigger.py b/trappy/stats/Trigger.py
index 22bd71f..0c17843 100644
--- a/trappy/stats/Trigger.py
+++ b/trappy/stats/Trigger.py
@@ -27,7 +27,6 @@ from __future__ import unicode_literals
 from __future__ import division
 from __future__ import print_function
 
-from builtins import range
 from builtins import object
 import types
 from trappy.utils import listify
@@ -92,9 +91,12 @@ class Trigger(object):
 
         trappy_event = getattr(self.trace, self.template.name)
         data_frame = trappy_event.data_frame
+        if data_frame.empty:
+            return pd.Series(dtype=float, index=data_frame.index)
+
         data_frame = data_frame[data_frame[self._pivot] == pivot_val]
 
-        mask = [True for _ in range(len(data_frame))]
+        mask = pd.Series(True, index=data_frame.index)
 
         for key, value in self._filters.items():
             if hasattr(value, "__call__"):
@@ -102,7 +104,7 @@ class Trigger(object):
             else:
                 mask = apply_filter_kv(key, value, data_frame, mask)
 
-        data_frame = data_frame[mask]
+        data_frame = data_frame[mask.astype(bool)]
 
         if isinstance(self._value, str):
             return data_frame[self._value]
-- 
2.43.0


From 1dbe5072cf68181998e4c1cc289ba957ade18cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 24/71] fix: keep the results of the nodes when aggregating

The results of a level were added up in that of the first node of each
group, so that later aggregations counted nodes more than once.
---
 trappy/stats/Aggregator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 715d47c..36f5c21 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -151,7 +151,8 @@ class MultiTriggerAggregator(AbstractAggregator):
                 else:
                     node_res = self._result[node]
 
-                level_res += node_res
+                # Not in place: this can be the result of a node
+                level_res = level_res + node_res
 
             result.append(level_res)
 
-- 
2.43.0


From d63af0b393ebf385ccf9db81331517fcfc50c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 25/71] fix: aggregate a single trigger, as documented

---
 trappy/stats/Aggregator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/stats/Aggregator.py b/trappy/stats/Aggregator.py
index 36f5c21..0b0d055 100644
--- a/trappy/stats/Aggregator.py
+++ b/trappy/stats/Aggregator.py
@@ -103,7 +103,7 @@ class MultiTriggerAggregator(AbstractAggregator):
                 will be processed by the aggfunc
         :type aggfunc: function
         """
-        self._triggers = triggers
+        self._triggers = listify(triggers)
         self.topology = topology
         super(
             MultiTriggerAggregator,
-- 
2.43.0


From 2aed42ae7f6f8d4f7c48b3e31a3469d11e0e6f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 26/71] fix: count the groups of the level "all" of a topology

It has one group with all nodes, but had as many as there are nodes
according to level_span(), and was missing according to has_level().
---
 trappy/stats/Topology.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/trappy/stats/Topology.py b/trappy/stats/Topology.py
index 82877a3..1e2a561 100644
--- a/trappy/stats/Topology.py
+++ b/trappy/stats/Topology.py
@@ -167,10 +167,7 @@ class Topology(object):
         :param level: The name of the level
         :type level_name: str
         """
-        if level == "all":
-            return len(self._nodes)
-        else:
-            return len(self._levels[level])
+        return len(self.get_level(level))
 
     def has_level(self, level):
         """Returns true if level is present
@@ -179,5 +176,5 @@ class Topology(object):
         :type level_name: str
         """
 
-        return (level in self._levels)
+        return level == "all" or level in self._levels
 
-- 
2.43.0


From 69a0b2fb2d1086dc72746b275f7135438f61a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 27/71] fix: align series at samples that have a value

Before the first event of a trace its samples have no value, which counted
as non-zero.
---
 trappy/stats/Correlator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 50d929d..31f3449 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -195,8 +195,9 @@ def align(s_x, s_y, mode="front"):
     :type mode: str
     """
 
-    p_x = np.flatnonzero(s_x)
-    p_y = np.flatnonzero(s_y)
+    # Samples without a value (yet) are neither zero nor non-zero
+    p_x = np.flatnonzero(s_x.fillna(0))
+    p_y = np.flatnonzero(s_y.fillna(0))
 
     if not len(p_x) or not len(p_y):
         return s_x, s_y, 0
-- 
2.43.0


From a7b1a52a15879d57d46280bb8de16745c1a960cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 28/71] fix: don't weigh correlations by samples without a
 value

Samples shifted in at the front and those before the first event counted
as non-zero, so that groups without any event took part in the total.
---
 trappy/stats/Correlator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/stats/Correlator.py b/trappy/stats/Correlator.py
index 31f3449..54f6b6e 100644
--- a/trappy/stats/Correlator.py
+++ b/trappy/stats/Correlator.py
@@ -91,7 +91,8 @@ class Correlator(object):
 
             series_x, series_y = shift_series(series_x, series_y, self._shift)
             corr_output.append(self._correlate(series_x, series_y))
-            weights.append(len(series_x[series_x != 0]) + len(series_y[series_y != 0]))
+            weights.append(np.count_nonzero(series_x.fillna(0)) +
+                           np.count_nonzero(series_y.fillna(0)))
 
         total = 0
         for weight, corr in zip(weights, corr_output):
-- 
2.43.0


From 004bd9c3ad5df937a16dcb5be770123fd7ff06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 29/71] fix: keep the data of windows that start before it

Without data before the window, the limit to include it was not a number
and nothing was left to plot.
---
 trappy/plotter/Constraint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 65f3de8..633bf4e 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -110,8 +110,10 @@ class Constraint(object):
         if window:
             # We want to include the previous value before the window
             # and the next after the window in the dataset
-            min_idx = self._data.loc[:window[0]].index.max()
-            max_idx = self._data.loc[window[1]:].index.min()
+            before = self._data.loc[:window[0]].index
+            after = self._data.loc[window[1]:].index
+            min_idx = before.max() if len(before) else None
+            max_idx = after.min() if len(after) else None
             self._data = self._data.loc[min_idx:max_idx]
 
         self.result = self._apply()
-- 
2.43.0


From 8576745c2cebc224de9bac61a97dd631932c52fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 30/71] fix: combine each trace with each signal when permuting

All signals of a trace used the event of the signal at the position of the
trace, and inputs repeated to get as many of them were drawn repeatedly.
---
 trappy/plotter/Constraint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 633bf4e..d7f1dba 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -323,9 +323,13 @@ class ConstraintManager(object):
         possible.
         """
 
-        for trace_idx, trace in enumerate(self._ip_vec[0]):
-            for col in self._ip_vec[1]:
-                template = self._ip_vec[2][trace_idx]
+        # Without the repetitions made to expand the inputs
+        num_traces = self._lens[0]
+        num_pairs = max(self._lens[1:])
+        pairs = list(zip(self._ip_vec[1], self._ip_vec[2]))[:num_pairs]
+
+        for trace_idx, trace in enumerate(self._ip_vec[0][:num_traces]):
+            for col, template in pairs:
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
                 self._constraints.append(constraint)
-- 
2.43.0


From 3f6542b568728a51568501fb2c9807d2112ed3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 31/71] fix: draw each line on the axis of its pivot, with its
 own legend entry

The axis was the position in the list of all lines, which fits for a single
trace where every line has every pivot value only; otherwise lines were
drawn on the axes of other pivots, or the axes did not suffice.  Lines were
looked up that have no data for a pivot of another line, and legends
were numbered per axis, so that they depended on which lines have data.
---
 trappy/plotter/BarPlot.py    |  6 ++--
 trappy/plotter/LinePlot.py   |  2 +-
 trappy/plotter/StaticPlot.py | 55 +++++++++++++++++++++++-------------
 3 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 19df378..54445a9 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -97,14 +97,14 @@ class BarPlot(StaticPlot):
 
         #Keep a list of the tops of bars to plot stacks
         #Start with a list of 0s to put the first bars at the bottom
-        value_list = [c.result[p].values for (c, p) in series_list]
+        value_list = [c.result[p].values for (_, c, p) in series_list]
         end_of_previous = [0] * max(len(x) for x in value_list)
 
-        for i, (constraint, pivot) in enumerate(series_list):
+        for position, (i, constraint, pivot) in enumerate(series_list):
             result = constraint.result
             bar_anchor = np.arange(len(result[pivot].values))
             if not stacked:
-                bar_anchor = bar_anchor + i * bar_width
+                bar_anchor = bar_anchor + position * bar_width
 
             line_2d_list = axis.bar(
                 bar_anchor,
diff --git a/trappy/plotter/LinePlot.py b/trappy/plotter/LinePlot.py
index 3e899ea..3763b87 100644
--- a/trappy/plotter/LinePlot.py
+++ b/trappy/plotter/LinePlot.py
@@ -158,7 +158,7 @@ class LinePlot(StaticPlot):
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
         """Internal Method called to plot data (series_list) on a given axis"""
-        for i, (constraint, pivot) in enumerate(series_list):
+        for i, constraint, pivot in series_list:
             result = constraint.result
             line_2d_list = axis.plot(
                 result[pivot].index,
diff --git a/trappy/plotter/StaticPlot.py b/trappy/plotter/StaticPlot.py
index 332fff2..88582f0 100644
--- a/trappy/plotter/StaticPlot.py
+++ b/trappy/plotter/StaticPlot.py
@@ -26,6 +26,7 @@ from trappy.plotter.Constraint import ConstraintManager
 from trappy.plotter.PlotLayout import PlotLayout
 from trappy.plotter.AbstractDataPlotter import AbstractDataPlotter
 from trappy.plotter.ColorMap import ColorMap
+from trappy.utils import listify
 from future.utils import with_metaclass
 
 
@@ -215,8 +216,10 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 self._attr["pivot"],
                 self._attr["map_label"].get(pivot, pivot)
             )
-        elif permute:
+        elif permute and constraint._template:
             legend_labels[series_index] = constraint._template.name + ":" + constraint.column
+        elif permute:
+            legend_labels[series_index] = constraint.column
         else:
             legend_labels[series_index] = str(constraint)
 
@@ -237,18 +240,31 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
 
         self._fig = self._layout.get_fig()
 
-        # Determine what constraint to plot and the corresponding pivot value
+        # Determine what constraint to plot and the corresponding pivot value,
+        # together with its axis and its entry in the legend
         if permute:
-            legend_len = self.c_mgr._max_len
-            pivots = [y for _, y in pivot_vals]
-            c_dict = {c : str(c) for c in self.c_mgr}
-            c_list = sorted(c_dict.items(), key=lambda x: (x[1].split(":")[-1], x[1].split(":")[0]))
-            constraints = [c[0] for c in c_list]
-            cp_pairs = [(c, p) for c in constraints for p in sorted(set(pivots))]
+            legend_len = len(self.c_mgr) // len(listify(self.traces))
         else:
             legend_len = len_pivots if concat else len(self.c_mgr)
-            pivots = pivot_vals
-            cp_pairs = [(c, p) for c in self.c_mgr for p in pivots if p in c.result]
+
+        figure_data = ddict(list)
+        for c_index, constraint in enumerate(self.c_mgr):
+            for p_index, p_val in enumerate(pivot_vals):
+                if permute:
+                    trace_idx, pivot = p_val
+                    if trace_idx != constraint.trace_index:
+                        continue
+                    axis_index, legend_index = p_index, c_index % legend_len
+                elif concat:
+                    pivot = p_val
+                    axis_index, legend_index = c_index, p_index
+                else:
+                    pivot = p_val
+                    axis_index, legend_index = p_index, c_index
+
+                if pivot in constraint.result:
+                    axis = self._layout.get_axis(axis_index)
+                    figure_data[axis].append((legend_index, constraint, pivot))
 
         # Initialise legend data and colormap
         self._attr["_legend_handles"] = [None] * legend_len
@@ -259,12 +275,6 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         else:
             self._cmap = ColorMap(legend_len)
 
-        # Group constraints/series with the axis they are to be plotted on
-        figure_data = ddict(list)
-        for i, (constraint, pivot) in enumerate(cp_pairs):
-            axis = self._layout.get_axis(constraint.trace_index if concat else i)
-            figure_data[axis].append((constraint, pivot))
-
         # Plot each axis
         for axis, series_list in figure_data.items():
             self.plot_axis(
@@ -280,8 +290,11 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
                 axis.set_ylim(self._attr["ylim"])
 
         # Show legend
-        legend = self._fig.legend(self._attr["_legend_handles"],
-                         self._attr["_legend_labels"],
+        entries = [(handle, label) for handle, label in
+                   zip(self._attr["_legend_handles"],
+                       self._attr["_legend_labels"]) if handle is not None]
+        legend = self._fig.legend([handle for handle, _ in entries],
+                         [label for _, label in entries],
                          loc='lower center',
                          ncol=self._attr["legend_ncol"],
                          borderaxespad=0.)
@@ -290,5 +303,9 @@ class StaticPlot(with_metaclass(ABCMeta, AbstractDataPlotter)):
         self._layout.finish(num_of_axes)
 
     def plot_axis(self, axis, series_list, permute, concat, args_to_forward):
-        """Internal Method called to plot data (series_list) on a given axis"""
+        """Internal Method called to plot data (series_list) on a given axis
+
+        Each element of the list is the index in the legend, the constraint
+        and the pivot value of a series.
+        """
         raise NotImplementedError("Method Not Implemented")
-- 
2.43.0


From 2db923ce88fc36c099eb1f12e9c90afaa47be46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 32/71] fix: draw bars of series of different lengths

---
 trappy/plotter/BarPlot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/BarPlot.py b/trappy/plotter/BarPlot.py
index 54445a9..7795bd7 100644
--- a/trappy/plotter/BarPlot.py
+++ b/trappy/plotter/BarPlot.py
@@ -102,21 +102,22 @@ class BarPlot(StaticPlot):
 
         for position, (i, constraint, pivot) in enumerate(series_list):
             result = constraint.result
-            bar_anchor = np.arange(len(result[pivot].values))
+            num_bars = len(result[pivot].values)
+            bar_anchor = np.arange(num_bars)
             if not stacked:
                 bar_anchor = bar_anchor + position * bar_width
 
             line_2d_list = axis.bar(
                 bar_anchor,
                 result[pivot].values,
-                bottom=end_of_previous,
+                bottom=end_of_previous[:num_bars],
                 width=bar_width,
                 color=self._cmap.cmap(i),
                 **args_to_forward
             )
 
             if stacked:
-                end_of_previous = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
+                end_of_previous[:num_bars] = [x + y for (x, y) in zip(end_of_previous, result[pivot].values)]
 
             axis.set_title(self.make_title(constraint, pivot, permute, concat))
 
-- 
2.43.0


From 7f604e02b5b37ad42e6bf1acc54701ed2ecf078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 33/71] fix: plot several lines with pandas without
 Series.get_values()

The merged times have to be sorted with such versions, too.
---
 trappy/plotter/ILinePlot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 779fb63..8fe1c0f 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -301,8 +301,7 @@ class ILinePlot(AbstractDataPlotter):
         # 2) Merge the data frames to obtain common indexes
         df_columns = list(data_dict.keys())
         dedup_data = [handle_duplicate_index(s) for s in data_dict.values()]
-        ret = pd.Series(dedup_data, index=df_columns)
-        merged_df = pd.concat(ret.get_values(), axis=1)
+        merged_df = pd.concat(dedup_data, axis=1).sort_index()
         merged_df.columns = df_columns
         # 3) Fill NaN values depending on drawstyle
         if self._attr["drawstyle"] == "steps-post":
-- 
2.43.0


From 9b4654178c4ac6c5cefac83aba12c7f381e5f7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 34/71] fix: interpolate lines by time

The points added to a line at the times of others were not on the line
unless all times are equally spaced.
---
 trappy/plotter/ILinePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 8fe1c0f..6484c6d 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -312,6 +312,6 @@ class ILinePlot(AbstractDataPlotter):
             merged_df = merged_df.ffill()
         else:
             # default
-            merged_df = merged_df.interpolate()
+            merged_df = merged_df.interpolate(method="index")
 
         return merged_df
-- 
2.43.0


From 0a34d801674690d76f9efdd9109658894902a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 35/71] fix: label permuted and concatenated interactive plots
 by what they show

The title was the name of the trace at the position of the plot, which fails
with pivots, single traces and data frames, and single columns were
split into letters.
---
 trappy/plotter/ILinePlot.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 6484c6d..61a40fd 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -230,7 +230,10 @@ class ILinePlot(AbstractDataPlotter):
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
                         continue
-                    legend = constraint._template.name + ":" + constraint.column
+                    title = constraint.get_data_name()
+                    legend = constraint.column
+                    if constraint._template:
+                        legend = constraint._template.name + ":" + legend
                 else:
                     pivot = p_val
                     legend = str(constraint)
@@ -239,12 +242,11 @@ class ILinePlot(AbstractDataPlotter):
                 if pivot in result:
                     data_dict[legend] = result[pivot]
 
-            if permute:
-                title = self.traces[plot_index].name
-            elif pivot != AttrConf.PIVOT_VAL:
-                title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
-            else:
-                title = ""
+            if not permute:
+                if pivot != AttrConf.PIVOT_VAL:
+                    title = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
+                else:
+                    title = ""
 
             if len(data_dict) > 1:
                 data_frame = self._fix_indexes(data_dict)
@@ -272,7 +274,7 @@ class ILinePlot(AbstractDataPlotter):
             for pivot in pivot_vals:
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
-                        key = ",".join(self._attr["column"])
+                        key = constraint.column
                     else:
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
-- 
2.43.0


From f3ab26f5c14d53822767719c782840ead7db7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 36/71] fix: drop the intervals of unknown end of tasks that
 change their name

---
 trappy/plotter/Utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trappy/plotter/Utils.py b/trappy/plotter/Utils.py
index 1d116e6..abe76a1 100644
--- a/trappy/plotter/Utils.py
+++ b/trappy/plotter/Utils.py
@@ -83,8 +83,7 @@ def get_trace_event_data(trace, execnames=None, pids=None):
             warn_str = "Corrupted trace (dropped events) for PID {} at time {}". \
                        format(next_pid, index)
             warnings.warn(warn_str)
-            del pmap[next_pid]
-            del data[name][-1]
+            del data[pmap.pop(next_pid)][-1]
 
         if next_pid != 0 and not next_comm.startswith("migration"):
 
-- 
2.43.0


From 7905673e4c4ba0070e5a6f285d7e4e7c1c1e500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 37/71] fix: embed the scripts in every notebook that is
 exported

---
 trappy/nbexport/exporter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trappy/nbexport/exporter.py b/trappy/nbexport/exporter.py
index a55cc2d..2ac4b36 100644
--- a/trappy/nbexport/exporter.py
+++ b/trappy/nbexport/exporter.py
@@ -46,6 +46,13 @@ class TrappyPlotterPreprocessor(Preprocessor):
         self.inlined_files = []
         self.sourced_libs = []
 
+    def preprocess(self, nb, resources):
+        """Filter the outputs of a notebook"""
+        # Each notebook needs its own copy of the scripts
+        self.inlined_files = []
+        self.sourced_libs = []
+        return super(TrappyPlotterPreprocessor, self).preprocess(nb, resources)
+
     def preprocess_cell(self, cell, resources, cell_index):
         """Check if cell has text/html output and filter it"""
 
-- 
2.43.0


From 57bd3b5e1e174e48eff17635046c40c37d461caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 38/71] fix: combine results that have different workloads

---
 trappy/wa/results.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 238d39d..05b52eb 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -158,10 +158,12 @@ def combine_results(data):
 
     """
 
-    res_dict = {}
-    for benchmark in data[0].columns.levels[0]:
-        concat_objs = [d[benchmark] for d in data]
-        res_dict[benchmark] = pd.concat(concat_objs, axis=1)
+    res_dict = collections.OrderedDict()
+    for benchmark in [b for d in data for b in d.columns.get_level_values(0)]:
+        if benchmark not in res_dict:
+            concat_objs = [d[benchmark] for d in data
+                           if benchmark in d.columns.get_level_values(0)]
+            res_dict[benchmark] = pd.concat(concat_objs, axis=1)
 
     combined = pd.concat(res_dict.values(), axis=1, keys=res_dict.keys())
 
-- 
2.43.0


From e830d33aa6b998214fda6070be69db290bfef06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 39/71] fix: read sysfs parameters that have no trailing
 newline

---
 trappy/wa/sysfs_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 1401594..43f27ed 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -68,7 +68,8 @@ class SysfsExtractor(object):
             with open(property_path) as fin:
                 contents = fin.read()
                 # Trim trailing newline
-                contents = contents[:-1]
+                if contents.endswith("\n"):
+                    contents = contents[:-1]
 
                 try:
                     ret[property_name] = int(contents)
-- 
2.43.0


From 872e1dd6f26f058c8a03eedd2ecf3182ad886056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 40/71] fix: print sysfs parameters with pandas without
 DataFrame.from_items()

---
 trappy/wa/sysfs_extractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trappy/wa/sysfs_extractor.py b/trappy/wa/sysfs_extractor.py
index 43f27ed..bd3ae60 100644
--- a/trappy/wa/sysfs_extractor.py
+++ b/trappy/wa/sysfs_extractor.py
@@ -91,7 +91,7 @@ class SysfsExtractor(object):
         if len(params) == 0:
             return
 
-        params_items = [(key, [value]) for key, value in sorted(params.items())]
-        dfr = pd.DataFrame.from_items(params_items, orient="index",
-                                      columns=["Value"])
+        names = sorted(params)
+        dfr = pd.DataFrame({"Value": [params[name] for name in names]},
+                           index=names)
         display(HTML(dfr.to_html(header=False)))
-- 
2.43.0


From 110f36cf42840dd9f6d372f79e649a70465687f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 41/71] fix: use exactly the colors given in a list of colors

---
 trappy/plotter/ColorMap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/ColorMap.py b/trappy/plotter/ColorMap.py
index 4620fba..9566376 100644
--- a/trappy/plotter/ColorMap.py
+++ b/trappy/plotter/ColorMap.py
@@ -81,4 +81,10 @@ class ColorMap(object):
         rgb_map = ListedColormap(rgb_list, name='default_color_map', N=None)
         num_colors = len(rgb_list)
 
-        return cls(num_colors, cmap=rgb_map)
+        color_map = cls(num_colors, cmap=rgb_map)
+        # Index the list itself: scaling the index to [0, 1] and back may
+        # round to the color before
+        color_map.color_norm = clrs.NoNorm()
+        color_map.scalar_map.set_norm(color_map.color_norm)
+
+        return color_map
-- 
2.43.0


From d9d911a1d5e73ee51377a79b5a7335b92f8aea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 42/71] fix: refuse signals with malformed colors

---
 trappy/plotter/AbstractDataPlotter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/AbstractDataPlotter.py b/trappy/plotter/AbstractDataPlotter.py
index 9d69fe6..8238242 100644
--- a/trappy/plotter/AbstractDataPlotter.py
+++ b/trappy/plotter/AbstractDataPlotter.py
@@ -78,7 +78,7 @@ class AbstractDataPlotter(with_metaclass(ABCMeta, object)):
         :type signal_def: str
         """
 
-        match = re.match(r"(?P<event>[^:]+):(?P<column>[^:]+)(?P<color>:.+)?",
+        match = re.match(r"(?P<event>[^:]+):(?P<column>[^:]+)(?P<color>:.+)?$",
                          signal_def)
         if not match:
             raise ValueError(
@@ -91,6 +91,10 @@ class AbstractDataPlotter(with_metaclass(ABCMeta, object)):
         if color_match:
             color_list = color_match[1:].split(",", 2)
             color = [int(n, 16) if n.startswith("0x") else int(n) for n in color_list]
+            if len(color) != 3 or min(color) < 0 or max(color) > 255:
+                raise ValueError(
+                    'Invalid color in signal definition "{}". Should be '
+                    'three values from 0 to 255'.format(signal_def))
         else:
             color = None
 
-- 
2.43.0


From 3e51c3c2f41a4ba99706f43cd03172fd55ac4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 43/71] fix: draw signals without a color next to signals with
 one

---
 trappy/plotter/AbstractDataPlotter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/AbstractDataPlotter.py b/trappy/plotter/AbstractDataPlotter.py
index 8238242..7531f99 100644
--- a/trappy/plotter/AbstractDataPlotter.py
+++ b/trappy/plotter/AbstractDataPlotter.py
@@ -22,6 +22,7 @@ from builtins import object
 from abc import abstractmethod, ABCMeta
 from pandas import DataFrame
 import re
+from trappy.plotter.ColorMap import ColorMap
 from trappy.utils import listify
 from functools import reduce
 from future.utils import with_metaclass
@@ -131,4 +132,9 @@ class AbstractDataPlotter(with_metaclass(ABCMeta, object)):
             colors.append(color)
 
         if any(colors):
-            self._attr["colors"] = colors
+            # Signals that don't specify a color keep the default one
+            color_map = ColorMap(len(colors))
+            self._attr["colors"] = [
+                color if color else
+                [int(255 * x) for x in color_map.cmap(idx)[:3]]
+                for idx, color in enumerate(colors)]
-- 
2.43.0


From 7c38f5cb809331571e11580a54dad929a5e825d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 44/71] fix: read text traces that are not called .txt

FTrace() is documented to treat a file that does not end in .dat as the
output of trace-cmd report, but failed with "Could not find any trace
file", or silently read a .txt file of the same name.
---
 trappy/ftrace.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c453c87..a1a0b30 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -848,8 +848,13 @@ class FTrace(GenericFTrace):
     def __process_path(self, basepath):
         """Process the path and return the path to the file to parse"""
 
+        self.read_from_dat = False
+
         if os.path.isfile(basepath):
-            trace_name = os.path.splitext(basepath)[0]
+            trace_name, extension = os.path.splitext(basepath)
+            if extension not in (".dat", ".txt"):
+                # The output of trace-cmd report with some other name
+                return basepath
         else:
             trace_name = os.path.join(basepath, "trace")
 
@@ -858,7 +863,6 @@ class FTrace(GenericFTrace):
         trace_dat = trace_name + ".dat"
 
         trace_to_read = None
-        self.read_from_dat = False
 
         if os.path.isfile(trace_dat):
             trace_to_read = trace_dat
-- 
2.43.0


From a83ba582421ce4b929331d3e38c75e1722910d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 45/71] fix: do not leave temporary files behind when reading a
 trace.dat fails

Also say that trace-cmd is missing if it is, as python 3 sets the
filename of the exception.
---
 trappy/ftrace.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index a1a0b30..f4bf00a 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -330,16 +330,17 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
         self._parsing_setup()
 
-        self.__parse_trace_file(self.file_to_parse)
-        self.finalize_objects()
-
-        # Update (or create) cache directory
-        if not self.__class__.disable_cache:
-            self._update_cache()
+        try:
+            self.__parse_trace_file(self.file_to_parse)
+            self.finalize_objects()
 
-        self._apply_user_parameters()
+            # Update (or create) cache directory
+            if not self.__class__.disable_cache:
+                self._update_cache()
 
-        self._parsing_teardown()
+            self._apply_user_parameters()
+        finally:
+            self._parsing_teardown()
 
     def _parsing_setup(self):
         # By default, the file pointed by trace_path is parsed. However, an
@@ -911,15 +912,15 @@ class FTrace(GenericFTrace):
 
         cmd.append(trace_dat)
 
-        with NamedTemporaryFile(delete=False) as fout:
-            try:
-                output = run(cmd, capture_output=True, check=True)
-            except OSError as exc:
-                if exc.errno == 2 and not exc.filename:
-                    raise OSError(2, "trace-cmd not found in PATH, is it installed?")
-                else:
-                    raise
+        try:
+            output = run(cmd, capture_output=True, check=True)
+        except OSError as exc:
+            if exc.errno == 2 and exc.filename in (None, cmd[0]):
+                raise OSError(2, "trace-cmd not found in PATH, is it installed?")
+            else:
+                raise
 
+        with NamedTemporaryFile(delete=False) as fout:
             fout.write(output.stdout)
 
         return fout.name
-- 
2.43.0


From 739808dca02a042a33c2b6170b9b67266ef2d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 46/71] fix: stop looking for the header at the first event

A task called e.g. "cpus=4" in the first event was taken for the
header.
---
 trappy/ftrace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index f4bf00a..c9e9c11 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -946,6 +946,10 @@ class FTrace(GenericFTrace):
                 if not metadata_keys:
                     return res
 
+                if SPECIAL_FIELDS_RE.match(line):
+                    # Reached a valid trace line, abort metadata population
+                    return res
+
                 metadata_pattern = r"^\b(" + "|".join(metadata_keys) + \
                                    r")\b\s*=\s*([0-9]+)"
                 match = re.search(metadata_pattern, line)
@@ -953,10 +957,6 @@ class FTrace(GenericFTrace):
                     res[match.group(1)] = match.group(2)
                     metadata_keys.remove(match.group(1))
 
-                if SPECIAL_FIELDS_RE.match(line):
-                    # Reached a valid trace line, abort metadata population
-                    return res
-
         return res
 
     def __populate_trace_metadata(self, metadata):
-- 
2.43.0


From 9bce3988f186b3f1c7186193132dc81210728b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 47/71] fix: plot GPU and CPU data in order of time

pd.concat() does not sort an index of numbers, so the lines went back in
time and gaps were padded with the wrong value.
---
 trappy/ftrace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c9e9c11..4bd9975 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -650,7 +650,8 @@ is part of the trace.
         for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
             if devfreq_freqs is not None:
                 devfreq_freqs.name = "GPU"
-                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1)
+                allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1,
+                                     sort=True)
             else:
                 allfreqs = cpu_allfreqs
 
@@ -672,7 +673,7 @@ is part of the trace.
         try:
             gpu_data = pd.DataFrame({"GPU":
                                      self.devfreq_in_power.data_frame["load"]})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)
         except KeyError:
             pass
 
@@ -704,7 +705,7 @@ is part of the trace.
             gpu_load = gpu_dfr["load"] * gpu_dfr["freq"] / gpu_max_freq
 
             gpu_data = pd.DataFrame({"GPU": gpu_load})
-            load_data = pd.concat([load_data, gpu_data], axis=1)
+            load_data = pd.concat([load_data, gpu_data], axis=1, sort=True)
 
         load_data = load_data.fillna(method="pad")
         title = trappy.plot_utils.normalize_title("Normalized Utilization", title)
-- 
2.43.0


From 66a89236faa4836420feef32c820ac46a337629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 48/71] fix: label the frequency histograms with what they show

The histograms of input frequencies said "out", the ones of the GPU did
not name it, and all of them are in MHz.
---
 trappy/ftrace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 4bd9975..c94af83 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -58,7 +58,7 @@ def _plot_freq_hists(allfreqs, what, axis, title):
         this_title = trappy.plot_utils.normalize_title(this_title, title)
         xlim = (0, allfreqs[actor].max())
 
-        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "KHz", 20,
+        trappy.plot_utils.plot_hist(allfreqs[actor], ax, this_title, "MHz", 20,
                              "Frequency", xlim, "default")
 
 SPECIAL_FIELDS_RE = re.compile(
@@ -647,16 +647,17 @@ is part of the trace.
         in_allfreqs = (self.cpu_in_power.get_all_freqs(map_label),
                        devfreq_in_all_freqs, ax[in_base_idx:])
 
-        for cpu_allfreqs, devfreq_freqs, axis in (out_allfreqs, in_allfreqs):
+        for what, (cpu_allfreqs, devfreq_freqs, axis) in (("out", out_allfreqs),
+                                                          ("in", in_allfreqs)):
             if devfreq_freqs is not None:
-                devfreq_freqs.name = "GPU"
+                devfreq_freqs = devfreq_freqs.rename(columns={"freq": "GPU"})
                 allfreqs = pd.concat([cpu_allfreqs, devfreq_freqs], axis=1,
                                      sort=True)
             else:
                 allfreqs = cpu_allfreqs
 
             allfreqs.fillna(method="pad", inplace=True)
-            _plot_freq_hists(allfreqs, "out", axis, self.name)
+            _plot_freq_hists(allfreqs, what, axis, self.name)
 
     def plot_load(self, mapping_label, title="", width=None, height=None,
                   ax=None):
-- 
2.43.0


From 5ea0af934c604e8b6994842c449e2c1b9937b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 49/71] fix: plot the temperatures of the thermal zone asked
 for

tz_id was ignored for thermal zone 0 and when falling back to the data
of the governor, and failed for traces without governor data.
---
 trappy/plot_utils.py | 8 +++++---
 trappy/thermal.py    | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 516ddf6..06eaa78 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -157,10 +157,11 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
 
     for run in runs:
         gov_dfr = run.thermal_governor.data_frame
-        if tz_id:
-            gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
 
         try:
+            if tz_id is not None:
+                gov_dfr = gov_dfr[gov_dfr["thermal_zone_id"] == tz_id]
+
             current_temp = gov_dfr["current_temperature"]
             delta_temp = gov_dfr["delta_temperature"]
             control_series = (current_temp + delta_temp) / 1000
@@ -172,7 +173,8 @@ def plot_temperature(runs, width=None, height=None, ylim="range", tz_id=None):
                                          ax=ax, legend_label=run.name,
                                          tz_id=tz_id)
         except ValueError:
-            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name)
+            run.thermal_governor.plot_temperature(ax=ax, legend_label=run.name,
+                                                  tz_id=tz_id)
 
     post_plot_setup(ax, title="Temperature", ylim=ylim)
     plt.legend(loc="best")
diff --git a/trappy/thermal.py b/trappy/thermal.py
index f2af808..a3da88a 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -134,12 +134,14 @@ class ThermalGovernor(Base):
     """The Pivot along which the data is orthogonal"""
 
     def plot_temperature(self, title="", width=None, height=None, ylim="range",
-                         ax=None, legend_label=""):
-        """Plot the temperature"""
+                         ax=None, legend_label="", tz_id=None):
+        """Plot the temperature, only of thermal zone tz_id if given"""
         from matplotlib import pyplot as plt
         from trappy.plot_utils import normalize_title, pre_plot_setup, post_plot_setup
 
         dfr = self.data_frame
+        if tz_id is not None:
+            dfr = dfr[dfr["thermal_zone_id"] == tz_id]
         curr_temp = dfr["current_temperature"]
         control_temp_series = (curr_temp + dfr["delta_temperature"]) / 1000
         title = normalize_title("Temperature", title)
-- 
2.43.0


From 63a44f6573680a5901858c3401b282fa58ca0ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 50/71] fix: use the weights of cooling devices in numeric
 order

cdev10_weight was taken for the third actor.
---
 trappy/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 06eaa78..d9c02ee 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -248,7 +248,7 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         thermal_params = sysfs.get_parameters()
 
         sorted_weights = []
-        for param in sorted(thermal_params):
+        for param in sorted(thermal_params, key=lambda p: (len(p), p)):
             if re.match(r"cdev\d+_weight", param):
                 sorted_weights.append(thermal_params[param])
 
-- 
2.43.0


From 622edba59b5039089ee45d6b0f3adc6b19ef7699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 51/71] fix: plot temperature histograms of some runs without
 thermal data

The plots were made for the first runs, whether or not these are the ones
with data.
---
 trappy/plot_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index d9c02ee..3de8b6d 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -310,10 +310,8 @@ def plot_freq_hists(runs, map_label):
 
 def plot_temperature_hist(runs):
     """Plot temperature histograms for all the runs"""
-    num_runs = 0
-    for run in runs:
-        if len(run.thermal.data_frame):
-            num_runs += 1
+    runs = [run for run in runs if len(run.thermal.data_frame)]
+    num_runs = len(runs)
 
     if num_runs == 0:
         return
-- 
2.43.0


From 6d646f6536231336ba7b6f8c5df76f5df50d8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 52/71] fix: show temperatures below zero in the histogram

---
 trappy/thermal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trappy/thermal.py b/trappy/thermal.py
index a3da88a..1e3fd66 100644
--- a/trappy/thermal.py
+++ b/trappy/thermal.py
@@ -114,7 +114,7 @@ class Thermal(Base):
 
         temps = self.data_frame["temp"] / 1000
         title = normalize_title("Temperature", title)
-        xlim = (0, temps.max())
+        xlim = (min(0, temps.min()), temps.max())
 
         plot_hist(temps, ax, title, "C", 30, "Temperature", xlim, "default")
 
-- 
2.43.0


From 3260efead014cec5e400759ca8d3c8b12c32a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 53/71] fix: plot weighted input power if only some runs have
 weights

---
 trappy/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trappy/plot_utils.py b/trappy/plot_utils.py
index 3de8b6d..868415f 100644
--- a/trappy/plot_utils.py
+++ b/trappy/plot_utils.py
@@ -265,6 +265,8 @@ def plot_weighted_input_power(runs, actor_order, width=None, height=None):
         axis = [axis]
 
     for ax, run, weights in zip(axis, runs, actor_weights):
+        if not weights:
+            continue
         run.thermal_governor.plot_weighted_input_power(weights, title=run.name,
                                                        ax=ax)
 
-- 
2.43.0


From bcfc97ce1346fe151f255f4939d3fec30209e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 54/71] fix: permute any number of traces with the columns

Two traces and two columns could be permuted, but two traces and three
columns were refused because their numbers differ.
---
 trappy/plotter/Constraint.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index d7f1dba..38d879e 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -258,13 +258,13 @@ class ConstraintManager(object):
         self._constraints = []
 
         self._trace_expanded = False
-        self._expand()
+        self._expand(zip_constraints)
         if zip_constraints:
             self._populate_zip_constraints()
         else:
             self._populate_constraints()
 
-    def _expand(self):
+    def _expand(self, zip_constraints):
         """This is really important. We need to
         meet the following criteria for constraint
         expansion:
@@ -286,8 +286,15 @@ class ConstraintManager(object):
                    Len[columns] != 1
                    Len[templates] != 1
             )
+
+        Any number of traces is combined with the columns and templates
+        if the constraints are not zipped.
         """
         min_len = min(self._lens)
+        if not zip_constraints and min_len > 0:
+            self._expand_pairs()
+            return
+
         max_pos_comp = [
             i for i,
             j in enumerate(
@@ -311,6 +318,14 @@ class ConstraintManager(object):
                 self._ip_vec[val] = normalize_list(self._max_len,
                                                    self._ip_vec[val])
 
+    def _expand_pairs(self):
+        """Make the lists of columns and templates equally long"""
+        num_pairs = max(self._lens[1:])
+        for idx in (1, 2):
+            if self._lens[idx] != num_pairs:
+                self._ip_vec[idx] = normalize_list(num_pairs,
+                                                   self._ip_vec[idx])
+
     def _populate_constraints(self):
         """Populate the constraints creating one for each column in
         each trace
@@ -323,12 +338,9 @@ class ConstraintManager(object):
         possible.
         """
 
-        # Without the repetitions made to expand the inputs
-        num_traces = self._lens[0]
-        num_pairs = max(self._lens[1:])
-        pairs = list(zip(self._ip_vec[1], self._ip_vec[2]))[:num_pairs]
+        pairs = list(zip(self._ip_vec[1], self._ip_vec[2]))
 
-        for trace_idx, trace in enumerate(self._ip_vec[0][:num_traces]):
+        for trace_idx, trace in enumerate(self._ip_vec[0]):
             for col, template in pairs:
                 constraint = Constraint(trace, self._pivot, col, template,
                                         trace_idx, self._filters, self.window)
-- 
2.43.0


From 0918c7c95c33a6abd79262c97a02d037c2570dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 55/71] fix: give interactive lines the colors of their signals

The colors of all signals were used in every plot, so if a plot lacked the
line of one signal the following ones got the wrong colors.  Cells without
a plot don't draw data that doesn't exist anymore.
---
 trappy/plotter/ILinePlot.py    | 23 +++++++++++++++++++----
 trappy/plotter/ILinePlotGen.py | 25 +++++++++++++++++--------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 61a40fd..25ef78e 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -217,6 +217,15 @@ class ILinePlot(AbstractDataPlotter):
         self._attr["map_label"] = {}
         self._attr["title"] = AttrConf.TITLE
 
+    def _get_color(self, index):
+        """Color of the index-th line, None for the default colors"""
+        colors = self._attr.get("colors")
+        return colors[index % len(colors)] if colors else None
+
+    def _used_colors(self, color_dict):
+        """Colors of the lines in a plot, None for the default colors"""
+        return list(color_dict.values()) if self._attr.get("colors") else None
+
     def _plot(self, permute, test):
         """Internal Method called to draw the plot"""
         pivot_vals, len_pivots = self.c_mgr.generate_pivots(permute)
@@ -225,7 +234,8 @@ class ILinePlot(AbstractDataPlotter):
         plot_index = 0
         for p_val in pivot_vals:
             data_dict = OrderedDict()
-            for constraint in self.c_mgr:
+            color_dict = OrderedDict()
+            for c_index, constraint in enumerate(self.c_mgr):
                 if permute:
                     trace_idx, pivot = p_val
                     if constraint.trace_index != trace_idx:
@@ -241,6 +251,7 @@ class ILinePlot(AbstractDataPlotter):
                 result = constraint.result
                 if pivot in result:
                     data_dict[legend] = result[pivot]
+                    color_dict[legend] = self._get_color(c_index)
 
             if not permute:
                 if pivot != AttrConf.PIVOT_VAL:
@@ -253,7 +264,8 @@ class ILinePlot(AbstractDataPlotter):
             else:
                 data_frame = pd.DataFrame(data_dict)
 
-            self._layout.add_plot(plot_index, data_frame, title, test=test)
+            self._layout.add_plot(plot_index, data_frame, title, test=test,
+                                  colors=self._used_colors(color_dict))
             plot_index += 1
 
         self._layout.finish()
@@ -270,8 +282,9 @@ class ILinePlot(AbstractDataPlotter):
             result = constraint.result
             title = str(constraint)
             data_dict = OrderedDict()
+            color_dict = OrderedDict()
 
-            for pivot in pivot_vals:
+            for p_index, pivot in enumerate(pivot_vals):
                 if pivot in result:
                     if pivot == AttrConf.PIVOT_VAL:
                         key = constraint.column
@@ -279,13 +292,15 @@ class ILinePlot(AbstractDataPlotter):
                         key = "{0}: {1}".format(self._attr["pivot"], self._attr["map_label"].get(pivot, pivot))
 
                     data_dict[key] = result[pivot]
+                    color_dict[key] = self._get_color(p_index)
 
             if len(data_dict) > 1:
                 data_frame = self._fix_indexes(data_dict)
             else:
                 data_frame = pd.DataFrame(data_dict)
 
-            self._layout.add_plot(plot_index, data_frame, title)
+            self._layout.add_plot(plot_index, data_frame, title,
+                                  colors=self._used_colors(color_dict))
             plot_index += 1
 
         self._layout.finish()
diff --git a/trappy/plotter/ILinePlotGen.py b/trappy/plotter/ILinePlotGen.py
index cc86cbd..f619f4f 100644
--- a/trappy/plotter/ILinePlotGen.py
+++ b/trappy/plotter/ILinePlotGen.py
@@ -73,9 +73,16 @@ class ILinePlotGen(object):
         N_{rows} = \\frac{N_{cols}}{N_{plots}}
     """
 
-    def _add_graph_cell(self, fig_name, color_map):
+    def _add_graph_cell(self, fig_name):
         """Add a HTML table cell to hold the plot"""
 
+        cell = '<td style="border-style: hidden;"><div class="ilineplot" id="{}"></div></td>'.format(fig_name)
+
+        self._html.append(cell)
+
+    def _add_graph_js(self, fig_name, color_map):
+        """Add the script that draws the plot in its cell"""
+
         colors_opt_arg = ", " + to_dygraph_colors(color_map) if color_map else ""
 
         graph_js = ''
@@ -113,9 +120,6 @@ class ILinePlotGen(object):
             </script>
         """
 
-        cell = '<td style="border-style: hidden;"><div class="ilineplot" id="{}"></div></td>'.format(fig_name)
-
-        self._html.append(cell)
         self._js.append(graph_js)
 
     def _add_legend_cell(self, fig_name):
@@ -149,7 +153,7 @@ class ILinePlotGen(object):
         self._fig_index += 1
         return fig_name
 
-    def _init_html(self, color_map):
+    def _init_html(self):
         """Initialize HTML code for the plots"""
 
         table = '<table style="border-style: hidden;">'
@@ -164,7 +168,7 @@ class ILinePlotGen(object):
             for _ in range(self._attr["per_line"]):
                 fig_name = self._generate_fig_name()
                 legend_figs.append(fig_name)
-                self._add_graph_cell(fig_name, color_map)
+                self._add_graph_cell(fig_name)
 
             self._end_row()
             self._begin_row()
@@ -198,7 +202,7 @@ class ILinePlotGen(object):
             self._rows += 1
 
         self._attr["height"] = AttrConf.HTML_HEIGHT
-        self._init_html(kwargs.pop("colors", None))
+        self._init_html()
 
     def _check_add_scatter(self, fig_params):
         """Check if a scatter plot is needed
@@ -213,7 +217,8 @@ class ILinePlotGen(object):
 
         fig_params["pointSize"] = self._attr["point_size"]
 
-    def add_plot(self, plot_num, data_frame, title="", test=False):
+    def add_plot(self, plot_num, data_frame, title="", test=False,
+                 colors=None):
         """Add a plot for the corresponding index
 
         :param plot_num: The linear index of the plot
@@ -224,6 +229,9 @@ class ILinePlotGen(object):
 
         :param title: The title for the plot
         :type title: str
+
+        :param colors: The colors of the columns as rgb tuples
+        :type colors: list(tuple)
         """
 
         datapoints = sum(len(v) for v in data_frame.values)
@@ -267,6 +275,7 @@ class ILinePlotGen(object):
         self._js_plot_data.append("<script>")
         self._js_plot_data.append(fig_data)
         self._js_plot_data.append("</script>")
+        self._add_graph_js(fig_name, colors)
 
     def finish(self):
         """Called when the Plotting is finished"""
-- 
2.43.0


From a978228925d6e2dc6683b96b9a4d6b42b204d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 56/71] fix: don't use web resources that were only partly
 downloaded

---
 trappy/plotter/IPythonConf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/IPythonConf.py b/trappy/plotter/IPythonConf.py
index 173ed2d..db24d22 100644
--- a/trappy/plotter/IPythonConf.py
+++ b/trappy/plotter/IPythonConf.py
@@ -64,8 +64,11 @@ def install_http_resource(url, to_path):
     :param to_path: Destination path on the disk
     :type to_path: str
     """
+    # Don't take a download that was interrupted for the resource
+    part_path = to_path + ".part"
     try:
-        urllib.request.urlretrieve(url, filename=to_path)
+        urllib.request.urlretrieve(url, filename=part_path)
+        os.rename(part_path, to_path)
     except IOError:
         raise ImportError("Could not receive Web Resource {}"
                           .format(to_path))
-- 
2.43.0


From 87016e0acce9c29e0ce17066793c9b50246c79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 57/71] fix: plot traces that don't tell the number of CPUs

---
 trappy/plotter/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trappy/plotter/__init__.py b/trappy/plotter/__init__.py
index d9d57c5..edee640 100644
--- a/trappy/plotter/__init__.py
+++ b/trappy/plotter/__init__.py
@@ -80,7 +80,13 @@ def plot_trace(trace,
             trace = trappy.FTrace(trace)
 
     data, procs, domain = Utils.get_trace_event_data(trace, execnames, pids)
+
+    num_cpus = getattr(trace, "_cpus", None)
+    if num_cpus is None:
+        # The trace doesn't say, show the ones that were used
+        num_cpus = 1 + trace.sched_switch.data_frame["__cpu"].max()
+
     trace_graph = EventPlot.EventPlot(data, procs, domain,
                                       lane_prefix="CPU :",
-                                      num_lanes=int(trace._cpus))
+                                      num_lanes=int(num_cpus))
     trace_graph.view()
-- 
2.43.0


From 3946adefbaffa8659808bb61d68d983928e856b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 58/71] fix: enlarge the axis if there are fewer runs of some
 result

Missing results are NaN, which compares false with everything.
---
 trappy/wa/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 05b52eb..505076b 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -40,8 +40,8 @@ class Result(pd.DataFrame):
         (_, _, plot_y_min, plot_y_max) = plt.axis()
 
         concat_data = pd.concat(data[s] for s in data)
-        data_min = min(concat_data)
-        data_max = max(concat_data)
+        data_min = concat_data.min()
+        data_max = concat_data.max()
 
         # A good margin can be 10% of the data range
         margin = (data_max - data_min) / 10
-- 
2.43.0


From 2b8c71e346490cd6535eb19258a580a10bf01dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 59/71] fix: work on the figure of the results, not the current
 one

---
 trappy/wa/results.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/wa/results.py b/trappy/wa/results.py
index 505076b..021c48d 100644
--- a/trappy/wa/results.py
+++ b/trappy/wa/results.py
@@ -37,7 +37,8 @@ class Result(pd.DataFrame):
     def enlarge_axis(self, data):
         """Make sure that the axis don't clobber some of the data"""
 
-        (_, _, plot_y_min, plot_y_max) = plt.axis()
+        ax = plt.gca() if self.ax is None else self.ax
+        (plot_y_min, plot_y_max) = ax.get_ylim()
 
         concat_data = pd.concat(data[s] for s in data)
         data_min = concat_data.min()
@@ -59,7 +60,7 @@ class Result(pd.DataFrame):
             update_axis = True
 
         if update_axis:
-            self.ax.set_ylim(plot_y_min, plot_y_max)
+            ax.set_ylim(plot_y_min, plot_y_max)
 
     def plot_results_benchmark(self, benchmark, title=None):
         """Plot the results of the execution of a given benchmark
@@ -71,8 +72,8 @@ class Result(pd.DataFrame):
             title = benchmark.replace('_', ' ')
             title = title.title()
 
-        self[benchmark].plot(ax=self.ax, kind="bar", title=title)
-        plt.legend(bbox_to_anchor=(1.05, .5), loc=6)
+        ax = self[benchmark].plot(ax=self.ax, kind="bar", title=title)
+        ax.legend(bbox_to_anchor=(1.05, .5), loc=6)
 
     def plot_results(self):
         for bench in self.columns.levels[0]:
-- 
2.43.0


From 6ecdc5d3fb55b2f28799b3bb25c52e8308ae85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 60/71] fix: give cached events' lines to no other event

---
 trappy/ftrace.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index c94af83..33aec10 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -200,7 +200,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
 
     def _get_csv_path(self, trace_class):
         path = self._trace_cache_path()
-        return os.path.join(path, trace_class.__class__.__name__ + '.csv')
+        name = trace_class.__class__.__name__
+        if trace_class.fallback:
+            # What it holds depends on which other events were parsed
+            words = sorted(c.unique_word for c in self.trace_classes)
+            name += "-" + hashlib.md5("\n".join(words).encode("utf-8")).hexdigest()
+        return os.path.join(path, name + '.csv')
 
     def _get_cache_metadata(self):
         cache_path = self._trace_cache_path()
@@ -440,7 +445,8 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                     # Now that we know the basetime, we can derive max_window
                     self.max_window = self._calc_max_window()
 
-                if trace_class:
+                # Lines of cached events mustn't go to another one instead
+                if trace_class and not trace_class.cached:
                     data_str = fields_match.group('data')
 
                     # Remove empty arrays from the trace
@@ -491,9 +497,6 @@ is part of the trace.
         cls_for_unique_word = {}
         for trace_name in self.class_definitions.keys():
             trace_class = getattr(self, trace_name)
-            if trace_class.cached:
-                continue
-
             unique_word = trace_class.unique_word
             if unique_word in cls_for_unique_word:
                 # This means TRAPpy has a nasty bug, like the one fixed in
-- 
2.43.0


From c92a2ddc6d556f8e6d6da0c74e47abd62386bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 61/71] fix: lay out plots without a title

---
 trappy/plotter/PlotLayout.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trappy/plotter/PlotLayout.py b/trappy/plotter/PlotLayout.py
index 9bbb1c5..747ede0 100644
--- a/trappy/plotter/PlotLayout.py
+++ b/trappy/plotter/PlotLayout.py
@@ -98,6 +98,7 @@ class PlotLayout(object):
         """set the default attrs"""
         self._attr["width"] = AttrConf.WIDTH
         self._attr["length"] = AttrConf.LENGTH
+        self._attr["title"] = AttrConf.TITLE
 
     def get_2d(self, linear_val):
         """Convert Linear to 2D coordinates
-- 
2.43.0


From 15d661f84d3f09ddeca476a32c7f4b92d7c0816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 62/71] fix: keep the colours of an EventPlot with a partial
 color map

The colours of the map were listed without gaps for the names it lacks, so
every name after such a one was drawn in the colour of another.
---
 trappy/plotter/js/EventPlot.js | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 14a0024..d2d1e45 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -116,15 +116,15 @@ var EventPlot = (function () {
             var xMin = x.domain()[0];
             var xMax = x.domain()[1];
 
-            if (!d.colorMap) {
-                // Colour Ordinal scale. Uses Category20 Colors
-                colours = d3.scale.category20().range();
-            } else {
+            // Colour Ordinal scale. Uses Category20 Colors
+            var colours = d3.scale.category20().range();
+            if (d.colorMap) {
                 // Use colours provided by user
-                var colours = [];
-                for (var i in names)
-                    if (names[i] in d.colorMap)
-                        colours.push(d.colorMap[names[i]]);
+                var defaults = colours;
+                colours = names.map(function (name, i) {
+                    return name in d.colorMap ? d.colorMap[name] :
+                        defaults[i % defaults.length];
+                });
             }
             colourAxis = d3.scale.ordinal()
                 .range(colours)
-- 
2.43.0


From 2b10849697575fcdccdbe41aebca47feaa07cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 63/71] fix: find the process pointed at in an EventPlot

The data of a process are kept by lane, but Ctrl+Alt+Right-Click searched
them as one list and found nothing.
---
 trappy/plotter/js/EventPlot.js | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index d2d1e45..763bc2e 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -63,23 +63,22 @@ var EventPlot = (function () {
      */
     var getCurrentInfo = function(ePlot, x0, y0) {
 
-        for (name in ePlot.items) {
+        for (var name in ePlot.items) {
+
+            var data = ePlot.items[name][y0];
+            if (!data || !data.length)
+                continue;
 
-            var data = ePlot.items[name];
             var xMax = ePlot.zoomScale.domain()[1];
             var right = search_data(data, 0, xMax, 0, data.length - 1);
             var left = search_data(data, 1, x0, 0, right);
 
-            if (data) {
-                var candidate = data[left];
-                if (candidate[0] <= x0 &&
-                        candidate[1] >= x0 &&
-                        candidate[2] == y0)
-                    return {
-                            name: name,
-                            info: candidate
-                        };
-            }
+            var candidate = data[left];
+            if (candidate[0] <= x0 && candidate[1] >= x0)
+                return {
+                        name: name,
+                        info: [candidate[0], candidate[1], y0]
+                    };
         }
     }
 
-- 
2.43.0


From bada7196d908d2aca8ce9aafd45dc5802869cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:03 +0000
Subject: [PATCH 64/71] fix: do not share the axis of an EventPlot with the
 next one

The width, height and axis scale were globals, so an EventPlot zoomed and
resized with those of the last one drawn on the page.
---
 trappy/plotter/js/EventPlot.js | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 763bc2e..28c7b30 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -100,9 +100,10 @@ var EventPlot = (function () {
                     right: 15,
                     bottom: 15,
                     left: 70
-                }, width = div.width() - margin.left - margin.right,
+                };
 
-                mainHeight = 50 * lanes.length - margin.top - margin.bottom;
+            var width = div.width() - margin.left - margin.right;
+            var mainHeight = 50 * lanes.length - margin.top - margin.bottom;
 
             x = d3.scale.linear()
                 .domain(d.xDomain)
@@ -129,7 +130,7 @@ var EventPlot = (function () {
                 .range(colours)
                 .domain(names);
 
-            brushScale = d3.scale.linear()
+            var brushScale = d3.scale.linear()
                 .range([0, width]);
             ext = d3.extent(lanes, function (d) {
                 return d.id;
@@ -480,7 +481,7 @@ var EventPlot = (function () {
         var width_box_two = ePlot.width - width_box_one;
 
         ePlot.iDesc.info
-            .attr("width", width);
+            .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
             .attr("width", width_box_one - infoProps.BOX_BUFFER);
         ePlot.iDesc.currentDisp
-- 
2.43.0


From e581b823e3c4f3fdb80e3291a6751a319ef13888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:25 +0000
Subject: [PATCH 65/71] fix: keep the window of an EventPlot when the page is
 resized

Resizing failed without a summary, and with one the zoom and the window of
the summary went on with the scale and the width of the old size and the
old axis stayed below a second one.
---
 trappy/plotter/js/EventPlot.js | 71 +++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/trappy/plotter/js/EventPlot.js b/trappy/plotter/js/EventPlot.js
index 28c7b30..fe6d087 100644
--- a/trappy/plotter/js/EventPlot.js
+++ b/trappy/plotter/js/EventPlot.js
@@ -350,6 +350,35 @@ var EventPlot = (function () {
 
             chart.on("contextmenu", contextMenuHandler);
 
+            // Show new_domain in the main area
+            var zoomTo = function (new_domain) {
+                var t = zoom.translate(),
+                    scale;
+
+                /*
+                 *    scale = x.range()[1] - x.range[0]
+                 *          --------------------------
+                 *          x(x.domain()[1] - x.domain()[0])
+                 *
+                 *                             _                                   _
+                 *  new_domain[0] =  x.invert | x.range()[0]  -   z.translate()[0]  |
+                 *                            |                 ------------------- |
+                 *                            |_                     z.scale()     _|
+                 *
+                 *
+                 *
+                 *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
+                 */
+
+                scale = ePlot.width / x(x.domain()[0] +
+                    new_domain[1] -
+                    new_domain[0]);
+                zoom.scale(scale);
+                t[0] = x.range()[0] - (x(new_domain[
+                    0]) * scale);
+                zoom.translate(t);
+            };
+
             if (showSummary) {
                 var _brushed_event = function () {
                     main.selectAll("path")
@@ -357,33 +386,7 @@ var EventPlot = (function () {
                     var brush_xmin = brush.extent()[0];
                     var brush_xmax = brush.extent()[1];
 
-                    var t = zoom.translate(),
-                        new_domain = brush.extent(),
-                        scale;
-
-                    /*
-                     *    scale = x.range()[1] - x.range[0]
-                     *          --------------------------
-                     *          x(x.domain()[1] - x.domain()[0])
-                     *
-                     *                             _                                   _
-                     *  new_domain[0] =  x.invert | x.range()[0]  -   z.translate()[0]  |
-                     *                            |                 ------------------- |
-                     *                            |_                     z.scale()     _|
-                     *
-                     *
-                     *
-                     *  translate[0] = x.range()[0] - x(new_domain[0])) * zoom.scale()
-                     */
-
-                    scale = (width) / x(x.domain()[0] +
-                        new_domain[1] -
-                        new_domain[0]);
-                    zoom.scale(scale);
-                    t[0] = x.range()[0] - (x(new_domain[
-                        0]) * scale);
-                    zoom.translate(t);
-
+                    zoomTo(brush.extent());
 
                     brushScale.domain(brush.extent())
                     drawMain(ePlot, brush_xmin,
@@ -426,6 +429,7 @@ var EventPlot = (function () {
 
                 var width = div.width() - margin.left
                     - margin.right;
+                var shown = zoomScale.domain();
 
                 /* Update scale ranges */
                 x.range([0, width]);
@@ -433,9 +437,14 @@ var EventPlot = (function () {
                 brushScale.range([0, width]);
                 ePlot.width = width;
 
+                /* The zoom keeps a copy of its scale, renew it */
+                zoom.x(zoomScale.domain(x.domain()));
+                zoomTo(shown);
+
                 resize_main(ePlot);
                 resize_info(ePlot);
-                resize_mini(ePlot);
+                if (showSummary)
+                    resize_mini(ePlot);
                 zoomed();
 
             }
@@ -458,11 +467,9 @@ var EventPlot = (function () {
 
         d3.select(ePlot.mini.node().parentNode)
             .attr("width", ePlot.div.width());
-        ePlot.iDesc.info_svg
-            .attr("width", ePlot.div.width());
         ePlot.mini.selectAll("line")
             .attr("x2", ePlot.width);
-        ePlot.mini.call(ePlot.miniAxis);
+        ePlot.mini.select('.axis').call(ePlot.miniAxis);
         ePlot.mini.selectAll(".miniItem").remove();
         drawMiniPaths(ePlot);
     }
@@ -480,6 +487,8 @@ var EventPlot = (function () {
         var width_box_one = infoProps.BOX_WIDTH_RATIO * ePlot.width;
         var width_box_two = ePlot.width - width_box_one;
 
+        ePlot.iDesc.info_svg
+            .attr("width", ePlot.div.width());
         ePlot.iDesc.info
             .attr("width", ePlot.width);
         ePlot.iDesc.guiderInfo
-- 
2.43.0


From 378bcf5838698f71a91098dd3464e12a62cb3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 66/71] fix: take any name for a group of ILinePlots

The plots and synchronizers were kept as properties of arrays, so a group
called "map" or "length", say, failed to line up.
---
 trappy/plotter/js/ILinePlot.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trappy/plotter/js/ILinePlot.js b/trappy/plotter/js/ILinePlot.js
index 309e90d..0c22d61 100644
--- a/trappy/plotter/js/ILinePlot.js
+++ b/trappy/plotter/js/ILinePlot.js
@@ -16,8 +16,8 @@
 
 var ILinePlot = ( function() {
 
-   var graphs = new Array();
-   var syncObjs = new Array();
+   var graphs = Object.create(null);
+   var syncObjs = Object.create(null);
 
     var purge = function() {
         for (var div_name in graphs) {
-- 
2.43.0


From 0fefed6b536012fd663bc7039401e4536d0ce33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:33 +0000
Subject: [PATCH 67/71] fix: keep text with underscores between digits as text

---
 trappy/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trappy/base.py b/trappy/base.py
index 9f1fb07..709a966 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -205,6 +205,10 @@ class Base(object):
         :type string: str
         """
 
+        # Python takes "1_000" for a number, but nothing prints them like that
+        if "_" in string:
+            return string
+
         try:
             # Let python figure out the base
             return int(string, base=0)
-- 
2.43.0


From b44f643f758b24b1cde81d3fe9306b2ec973ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 68/71] fix: don't fail on cache metadata of other types

Metadata that is valid JSON but not what was written (no object, no numbers
as times) made opening the trace fail instead of invalidating the cache.
---
 trappy/ftrace.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/trappy/ftrace.py b/trappy/ftrace.py
index 33aec10..171444f 100644
--- a/trappy/ftrace.py
+++ b/trappy/ftrace.py
@@ -82,6 +82,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
     # Metadata without which a cache can't be used
     _cache_metadata_keys = ("md5sum", "basetime", "endtime")
 
+    # What these must be
+    _cache_metadata_types = {"basetime": (int, float), "endtime": (int, float)}
+
     def __init__(self, name="", normalize_time=True, scope="all",
                  events=[], window=(0, None), abs_window=(0, None)):
         super(GenericFTrace, self).__init__(name)
@@ -215,6 +218,9 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
         with open(metadata_path) as f:
             metadata = json.load(f)
 
+        if not isinstance(metadata, dict):
+            raise ValueError("Not the metadata of a cache")
+
         return metadata
 
     def _is_cache_valid(self, cache_metadata):
@@ -224,6 +230,12 @@ subclassed by FTrace (for parsing FTrace coming from trace-cmd) and SysTrace."""
                 warnings.warn(warnstr)
                 return False
 
+        for key, types in self._cache_metadata_types.items():
+            if not isinstance(cache_metadata[key], types):
+                warnstr = "Cache metadata is erroneous, invalidating cache"
+                warnings.warn(warnstr)
+                return False
+
         with open(self.trace_path, 'rb') as f:
             trace_md5sum = hashlib.md5(f.read()).hexdigest()
 
@@ -812,6 +824,8 @@ class FTrace(GenericFTrace):
 
     _cache_metadata_keys = GenericFTrace._cache_metadata_keys + ("ftrace",)
 
+    _cache_metadata_types = dict(GenericFTrace._cache_metadata_types, ftrace=dict)
+
     def __init__(self, path=".", name="", normalize_time=True, scope="all",
                  events=[], window=(0, None), abs_window=(0, None)):
 
-- 
2.43.0


From 1798276e3487dd04a7022d6092761248624249cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 69/71] fix: don't round integers of columns with missing
 values

Pandas makes columns of floats of them, so numbers of more than 53 bits
(addresses, for instance) were rounded, and differently so from the cache.
---
 trappy/base.py              | 40 ++++++++++++++++++++++++++++++++-----
 trappy/plotter/ILinePlot.py |  2 +-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/trappy/base.py b/trappy/base.py
index 709a966..63d00d0 100644
--- a/trappy/base.py
+++ b/trappy/base.py
@@ -25,6 +25,7 @@ from past.builtins import basestring
 import json
 import os
 import re
+import numpy as np
 import pandas as pd
 import warnings
 
@@ -296,6 +297,12 @@ class Base(object):
             else:
                 continue
 
+    @staticmethod
+    def __get_rounded_columns(dfr):
+        """Get the columns of floats that are too big for exact integers"""
+        return [col for col in dfr.columns[dfr.dtypes == float]
+                if (dfr[col].abs() >= 2 ** 53).any()]
+
     def create_dataframe(self):
         """Create the final :mod:`pandas.DataFrame`"""
         if not self.time_array:
@@ -311,7 +318,14 @@ class Base(object):
                 self.data_array[idx] = expl_val
 
         time_idx = pd.Index(self.time_array, name="Time")
-        self.data_frame = pd.DataFrame(self.generate_parsed_data(), index=time_idx)
+        rows = list(self.generate_parsed_data())
+        self.data_frame = pd.DataFrame(rows, index=time_idx)
+
+        # Missing values make pandas use floats, don't let that round integers
+        for col in self.__get_rounded_columns(self.data_frame):
+            self.data_frame[col] = np.array(
+                [row.get(col, np.nan) for row in rows], dtype=object)
+
         self.data_frame = handle_duplicate_index(self.data_frame)
         self.optimize_dataframe()
 
@@ -333,14 +347,24 @@ class Base(object):
         # Write text as JSON, so that it can't be taken for something else
         # (a number, a boolean, a missing value...) when reading it back.
         for col in dfr.columns[dfr.dtypes == object]:
-            dfr[col] = [json.dumps(val) if isinstance(val, basestring) else val
-                        for val in dfr[col]]
+            dfr[col] = np.array(
+                [json.dumps(val) if isinstance(val, basestring) else val
+                 for val in dfr[col]], dtype=object)
 
         # Don't leave an incomplete file around if we get interrupted
         tmp_fname = fname + ".tmp"
         dfr.to_csv(tmp_fname)
         os.replace(tmp_fname, fname)
 
+    @staticmethod
+    def __decode_values(values):
+        """Undo what write_csv() does to the values of a column"""
+        # Missing values may come as empty text
+        return np.array([
+            val if not isinstance(val, basestring) else
+            json.loads(val) if val else np.nan for val in values
+        ], dtype=object)
+
     def read_csv(self, fname):
         """Read the csv data into a DataFrame
 
@@ -356,8 +380,14 @@ class Base(object):
         )
 
         for col in dfr.columns[dfr.dtypes == object]:
-            dfr[col] = [json.loads(val) if isinstance(val, basestring) else val
-                        for val in dfr[col]]
+            dfr[col] = self.__decode_values(dfr[col])
+
+        # Same as in create_dataframe()
+        rounded = self.__get_rounded_columns(dfr)
+        if rounded:
+            exact = pd.read_csv(fname, usecols=rounded, dtype=object)
+            for col in rounded:
+                dfr[col] = self.__decode_values(exact[col])
 
         self.data_frame = dfr
         self.optimize_dataframe()
diff --git a/trappy/plotter/ILinePlot.py b/trappy/plotter/ILinePlot.py
index 25ef78e..4062809 100644
--- a/trappy/plotter/ILinePlot.py
+++ b/trappy/plotter/ILinePlot.py
@@ -329,6 +329,6 @@ class ILinePlot(AbstractDataPlotter):
             merged_df = merged_df.ffill()
         else:
             # default
-            merged_df = merged_df.interpolate(method="index")
+            merged_df = merged_df.infer_objects().interpolate(method="index")
 
         return merged_df
-- 
2.43.0


From 4028235b3ab3ce25d3acb69bf5541bb17575fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:44 +0000
Subject: [PATCH 70/71] fix: keep task names in sched_switch as text

Names that look like numbers became numbers, which get_trace_event_data()
and plot_trace() can't handle, and lost the words after the first one.
---
 trappy/sched.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trappy/sched.py b/trappy/sched.py
index 5ff6272..f1e3a4b 100644
--- a/trappy/sched.py
+++ b/trappy/sched.py
@@ -115,6 +115,9 @@ class SchedSwitch(Base):
     unique_word = "sched_switch:"
     parse_raw = True
 
+    # A task may have a name that looks like a number
+    text_fields = ("prev_comm", "next_comm")
+
     def __init__(self):
         super(SchedSwitch, self).__init__(parse_raw=self.parse_raw)
 
-- 
2.43.0


From 1b170c4d362c22ab0e34e968cbde65adf3a08138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 71/71] fix: sort pivots of numbers and text

---
 trappy/plotter/Constraint.py |  4 +++-
 trappy/stats/grammar.py      | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/trappy/plotter/Constraint.py b/trappy/plotter/Constraint.py
index 38d879e..8895064 100644
--- a/trappy/plotter/Constraint.py
+++ b/trappy/plotter/Constraint.py
@@ -389,7 +389,9 @@ class ConstraintManager(object):
             try:
                 sorted_plist = sorted(p_set, key=lambda x: int(x, 16))
             except (ValueError, TypeError):
-                sorted_plist = sorted(p_set)
+                # Numbers before text
+                sorted_plist = sorted(
+                    p_set, key=lambda x: (isinstance(x, str), x))
 
         if permute:
             pivot_gen = ((trace_idx, pivot) for trace_idx in traces for pivot in sorted_plist)
diff --git a/trappy/stats/grammar.py b/trappy/stats/grammar.py
index 1de9387..81e7bbe 100644
--- a/trappy/stats/grammar.py
+++ b/trappy/stats/grammar.py
@@ -162,6 +162,19 @@ def str_to_attr(cls_str):
         return globals()[attr_name]
 
 
+def pivot_values(column):
+    """Return the sorted values of a pivot's column
+
+    :param column: The column of the pivot
+    :type column: :mod:`pandas.Series`
+    """
+    try:
+        return list(np.unique(column))
+    except TypeError:
+        # Numbers and text don't compare: numbers before text
+        return sorted(column.unique(), key=lambda x: (isinstance(x, str), x))
+
+
 def get_parse_expression(parse_func, parse_var_id):
     """return a parse expression with for the
     input parseActions
@@ -425,7 +438,7 @@ class Parser(object):
 
         if hasattr(cls, "pivot") and cls.pivot:
             pivot = cls.pivot
-            pivot_vals = list(np.unique(data_frame[pivot].values))
+            pivot_vals = pivot_values(data_frame[pivot])
             data = {}
 
 
@@ -513,7 +526,7 @@ class Parser(object):
         info["length"] = len(data_frame)
         if hasattr(cls, "pivot") and cls.pivot:
             info["pivot"] = cls.pivot
-            info["pivot_values"] = list(np.unique(data_frame[cls.pivot]))
+            info["pivot_values"] = pivot_values(data_frame[cls.pivot])
         info["column"] = column
         info["column_present"] = column in data_frame.columns
         return info
-- 
2.43.0

