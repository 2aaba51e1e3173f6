From 59b4731278337df2fcc5d0a7b3ea8309cc37416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 01/28] fix: check the last row too when fitting an item

The scan skipped the row Yo+l-1, so an item could be placed over a narrower
item lying strictly inside its last row (always possible with items of length 1).
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 21f3f5786939f656c00e0829e7cd8e116467c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 02/28] fix: strip packing utilisation must use the solution's
 height

The topmost occupied row index was taken as the height, one less than the
height reached, so the reported utilisation exceeded 1 (2.0 for a perfect 3x2).
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..9a9a0bf 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -531,7 +531,7 @@ class PointGenerationMixin:
 
             for y in range(L - 1, 0, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From be49a550f369c4b2204452bd5fb0cd211467b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 03/28] fix: log_solution must not fail on a strip packing
 solution without items

The strip's solution height is 0 then, and dividing by it raised ZeroDivisionError.
---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 9a9a0bf..5fb1afa 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -653,7 +653,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # strip packing height is 0 when no item is placed
+            util = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {util:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From b2b865cbd885ad4196d8a78a24614ef294761a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 04/28] fix: workers_num must be an integer

Any object comparable with 0 was accepted, such as 2.5 or infinity, which then
made the multi process hypersearch fail; the documentation asks for an int.
---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..e96f1d2 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -397,10 +397,7 @@ class HyperPack(
         # % ----------------------------------------------------------------------------
         workers_num = self._settings.get("workers_num")
         if workers_num is not None:
-            try:
-                if not workers_num > 0:
-                    raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
-            except Exception:
+            if not isinstance(workers_num, int) or workers_num <= 0:
                 raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
             self._workers_num = workers_num
         else:
-- 
2.43.0


From fc625c66f3ab74633a3ddf1738168dcb91c398b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 05/28] fix: figures of containers holding more than 1000 items

colorgen ran out of colors and create_figure failed with an IndexError.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 5fb1afa..6231bc6 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -811,7 +811,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From da1da48590bcadf4e63e3bedab8ab5a05b1feea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 06/28] fix: compare plotly and kaleido versions as numbers

Compared as strings, plotly 5.9.0 passed for newer than 5.14.0.
---
 hyperpack/mixins.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 6231bc6..677b2c5 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -688,10 +688,15 @@ class SolutionFigureMixin:
     FIGURE_DEFAULT_FILE_NAME = "PlotlyGraph"
     ACCEPTED_IMAGE_EXPORT_FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
     # settings constraints
-    PLOTLY_MIN_VER = ("5", "14", "0")
-    PLOTLY_MAX_VER = ("6", "0", "0")
-    KALEIDO_MIN_VER = ("0", "2", "1")
-    KALEIDO_MAX_VER = ("0", "3", "0")
+    PLOTLY_MIN_VER = (5, 14, 0)
+    PLOTLY_MAX_VER = (6, 0, 0)
+    KALEIDO_MIN_VER = (0, 2, 1)
+    KALEIDO_MAX_VER = (0, 3, 0)
+
+    @staticmethod
+    def _get_version_numbers(version) -> tuple:
+        # numerical comparison needed: "5.9.0" is older than "5.14.0"
+        return tuple(int(re.match(r"\d*", x)[0] or 0) for x in version.split(".")[:3])
 
     def _check_plotly_kaleido_versions(self) -> None:
         self._plotly_installed = False
@@ -705,7 +710,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._plotly_installed = True
-            plotly_ver = tuple([x for x in plotly.__version__.split(".")][:3])
+            plotly_ver = self._get_version_numbers(plotly.__version__)
             if plotly_ver >= self.PLOTLY_MIN_VER and plotly_ver < self.PLOTLY_MAX_VER:
                 self._plotly_ver_ok = True
 
@@ -715,7 +720,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._kaleido_installed = True
-            kaleido_ver = tuple([x for x in kaleido.__version__.split(".")][:3])
+            kaleido_ver = self._get_version_numbers(kaleido.__version__)
             if kaleido_ver >= self.KALEIDO_MIN_VER and kaleido_ver < self.KALEIDO_MAX_VER:
                 self._kaleido_ver_ok = True
 
-- 
2.43.0


From 4629fdebfe677c6f9c9b7a92c964ccd1bba6cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 07/28] fix: validate the figure's width and height for html
 exports too

The documentation promises a SettingsError for invalid values there as well.
---
 hyperpack/mixins.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 677b2c5..03885b3 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -798,14 +798,14 @@ class SolutionFigureMixin:
                     if not self._kaleido_ver_ok:
                         raise SettingsError(SettingsError.FIGURE_EXPORT_KALEIDO_VERSION)
 
-                    export_width = export.get("width")
-                    if export_width is not None:
-                        if not isinstance(export_width, int) or export_width <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
-                    export_height = export.get("height")
-                    if export_height is not None:
-                        if not isinstance(export_height, int) or export_height <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
+                export_width = export.get("width")
+                if export_width is not None:
+                    if not isinstance(export_width, int) or export_width <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
+                export_height = export.get("height")
+                if export_height is not None:
+                    if not isinstance(export_height, int) or export_height <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
 
             show = figure_settings.get("show", False)
             if not isinstance(show, bool):
-- 
2.43.0


From 22a03837882403e0ae38764b0c582bcbfb922c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 08/28] fix: hypersearch must not depend on the string hash
 seed

The exhaustive strategies were permutations of a set of strings, so their
order, and with it the reported best strategy, changed from run to run.
---
 hyperpack/heuristics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index e96f1d2..4a536f8 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -443,8 +443,12 @@ class HyperPack(
             else self.STRATEGIES_SUFFIX
         )
         if _exhaustive:
-            points = set(self.DEFAULT_POTENTIAL_POINTS_STRATEGY)
-            points_to_permutate = points.difference(set(suffixes))
+            # the order must not depend on string hashing
+            points_to_permutate = [
+                point
+                for point in self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+                if point not in suffixes
+            ]
             return [
                 x + self.STRATEGIES_SUFFIX
                 for x in list(
-- 
2.43.0


From c465c04a036429cc645de90a8b2f7b01e630a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 09/28] fix: generate_problem_data must give valid items around
 the asked means

items_length was not used as the mean of the lengths but only as the deviation
of the widths, and items with zero or negative dimensions could be generated.
---
 hyperpack/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..817feb6 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -51,16 +51,16 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_h_val = max(round(items_length * 0.6), 1)
 
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
     lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+        max(items_length - deviation_h_val, 1),
+        items_length + deviation_h_val,
     )
     items = {}
     total_items_num = items_num * containers_num
-- 
2.43.0


From 17f8552986d5142324eb1a1a1384de5e3e67dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 10/28] fix: |= on items, containers and dimensions must
 validate and reset

UserDict's in-place union updates the data directly, so any keys and values
were accepted and the solution was kept.
---
 hyperpack/structures.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..4b95dd4 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -118,6 +118,11 @@ class Dimensions(UserDict):
         if self.instance is not None:
             self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # UserDict updates the data directly, without validation and resetting
+        self.update(other)
+        return self
+
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
@@ -175,6 +180,11 @@ class AbstractStructureSet(UserDict):
         if self.instance is not None:
             self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # UserDict updates the data directly, without validation and resetting
+        self.update(other)
+        return self
+
     def __delitem__(self, key):
         if len(self.data) == 1:
             raise self.ERROR_CLASS(self.ERROR_CLASS.CANT_DELETE_STRUCTURE)
-- 
2.43.0


From 701436a9cbaa480f18a6eb12ef5e1ce55da1de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 11/28] fix: single process hypersearch must restore the
 strategy and report the one used

The instance was left with the last strategy tried, so that later solves gave
other results, and when no strategy improved the plain solution the default
strategy was reported instead of the instance's strategy that produced it.
---
 hyperpack/heuristics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4a536f8..cd0b678 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -466,7 +466,8 @@ class HyperPack(
         retain_solution = self.get_init_solution()
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
-        best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+        init_strategy = self._potential_points_strategy
+        best_strategy = init_strategy
 
         for strategy in strategies:
             # set the construction heuristic's potential points strategy
@@ -488,6 +489,9 @@ class HyperPack(
             if time.time() - self.start_time > self._max_time_in_seconds:
                 hyperLogger.debug("Terminating due to surpassed max time")
                 break
+
+        # the instance's strategy was changed only for searching
+        self._potential_points_strategy = init_strategy
         return *retain_solution, best_strategy
 
     def _multi_process_hypersearch(
-- 
2.43.0


From 245f8d84983aa0037484642d5a83db3348064f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 12/28] fix: multi process hypersearch deadlocks on big
 solutions and dead workers

The processes were joined before their outputs were received. A process whose
output exceeds the pipe's buffer can't exit before it is read, and a process
that died left its queue empty, so the parent waited for ever in both cases.
---
 hyperpack/heuristics.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index cd0b678..a0d89c2 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -4,6 +4,7 @@ import sys
 import time
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
+from queue import Empty
 
 from . import constants
 from . import mixins
@@ -494,6 +495,20 @@ class HyperPack(
         self._potential_points_strategy = init_strategy
         return *retain_solution, best_strategy
 
+    @staticmethod
+    def _receive_process_output(process):
+        """
+        Returns the output of a hypersearch process,
+        or None if the process died before giving any.
+        """
+        while True:
+            is_alive = process.is_alive()
+            try:
+                return process.queue.get(timeout=0.1)
+            except Empty:
+                if not is_alive:
+                    return None
+
     def _multi_process_hypersearch(
         self, strategies: tuple, throttle: bool, _force_raise_error_index
     ):
@@ -526,10 +541,16 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+        # a process can't be joined before its output is received
+        outputs = [self._receive_process_output(p) for p in processes]
         for p in processes:
             p.join()
         # at this point the processes concluded operation
-        shared_list = list(shared_Array)
+        # a process without output has died, so it has failed
+        shared_list = [
+            -1 if output is None else value
+            for value, output in zip(shared_Array, outputs)
+        ]
 
         # check if all/some processes failed
         if max(shared_list) == -1:
@@ -543,7 +564,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = outputs[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
-- 
2.43.0


From 121b1b5c0745d112762a479d8d55cd666efea00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 13/28] fix: multi process hypersearch must use the problem's
 strip height and strategy

The processes solved with the default strip height (ten times the width) and
the default strategy, so solutions could exceed the height the user had set.
---
 hyperpack/heuristics.py | 2 ++
 hyperpack/processes.py  | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index a0d89c2..25b6cda 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -536,6 +536,8 @@ class HyperPack(
                     shared_array=shared_Array,
                     throttle=throttle,
                     container_min_height=container_min_height,
+                    container_height=self._container_height,
+                    potential_points_strategy=self._potential_points_strategy,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..29ca931 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -32,6 +32,8 @@ class HyperSearchProcess(Process):
         *,
         strip_pack=False,
         container_min_height=None,
+        container_height=None,
+        potential_points_strategy=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -56,6 +58,10 @@ class HyperSearchProcess(Process):
 
         self.instance = HyperPack(**params)
         self.instance._container_min_height = container_min_height
+        if container_height is not None:
+            self.instance._container_height = container_height
+        if potential_points_strategy is not None:
+            self.instance._potential_points_strategy = potential_points_strategy
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 9d2f5d218576efc5c65cdf44ffe203adb549b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 14/28] fix: strip packing hypersearch must not drop items for
 a denser solution

The strip is lowered by every local search, so the start solution of the next
strategy may leave items out; being denser it replaced a complete solution,
against the documented requirement of all items when no minimum height is set.
---
 hyperpack/heuristics.py | 19 ++++++++++++++++++-
 hyperpack/processes.py  |  4 +++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 25b6cda..1a06267 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -425,6 +425,21 @@ class HyperPack(
         else:
             return False
 
+    def _drops_items(self, retained_solution):
+        """
+        In strip packing without minimum height, a solution having all the
+        items mustn't be replaced by a current solution that hasn't.
+        """
+        if not self._strip_pack or self._container_min_height is not None:
+            return False
+
+        items_num = len(self._items)
+        return (
+            len(self.solution[self.STRIP_PACK_CONT_ID])
+            < len(retained_solution[self.STRIP_PACK_CONT_ID])
+            == items_num
+        )
+
     def _get_array_optimum(self, array):
         """
         Using max for maximization else min for minimization.
@@ -477,7 +492,9 @@ class HyperPack(
             self.local_search(throttle=throttle, _hypersearch=True)
             new_obj_val = self.calculate_obj_value()
 
-            if self._check_solution(new_obj_val, best_obj_value):
+            if self._check_solution(
+                new_obj_val, best_obj_value
+            ) and not self._drops_items(retain_solution[0]):
                 best_obj_value = new_obj_val
                 retain_solution = self.get_solution()
                 best_strategy = [point for point in strategy]
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 29ca931..1858bfd 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -90,7 +90,9 @@ class HyperSearchProcess(Process):
                 new_obj_value = self.instance.calculate_obj_value()
                 array_optimum = self.instance._get_array_optimum(self.shared_array)
 
-                if self.instance._check_solution(new_obj_value, best_obj_value):
+                if self.instance._check_solution(
+                    new_obj_value, best_obj_value
+                ) and not self.instance._drops_items(retain_solution[0]):
                     best_obj_value = new_obj_value
                     self.shared_array[self.index] = new_obj_value
 
-- 
2.43.0


From 13ddbcd774482bca7f67cd6bbc1b938ab5cc0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 15/28] fix: searches must stop when the maximum utilisation is
 reached

The optimum was always infinite, so the documented stop at the maximum
objective value never happened.
---
 hyperpack/abstract.py   |  2 +-
 hyperpack/heuristics.py |  3 +++
 hyperpack/mixins.py     | 12 ++++++++++++
 hyperpack/processes.py  |  6 +++++-
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/hyperpack/abstract.py b/hyperpack/abstract.py
index cfe7808..0925986 100644
--- a/hyperpack/abstract.py
+++ b/hyperpack/abstract.py
@@ -118,7 +118,7 @@ class AbstractLocalSearch(ABC):
         if hasattr(self, "init_operations"):
             self.init_operations()
 
-        continue_criterion = True
+        continue_criterion = not self.global_check(best_obj_value, optimum_obj_value)
 
         # START of local search
         while continue_criterion:
diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 1a06267..edd11b1 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -485,6 +485,9 @@ class HyperPack(
         init_strategy = self._potential_points_strategy
         best_strategy = init_strategy
 
+        if self.global_check(best_obj_value, optimum_obj_value):
+            strategies = ()
+
         for strategy in strategies:
             # set the construction heuristic's potential points strategy
             self._potential_points_strategy = strategy
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 03885b3..bad8c96 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1129,6 +1129,18 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
                 sum([u for u in containers_obj_vals[:-1]]) + 0.7 * containers_obj_vals[-1]
             )
 
+    def get_optimum_objective_val(self):
+        """
+        In bin packing the optimum is reached when every container is full,
+        (within float tolerance). In strip packing there is no known optimum.
+        """
+        if self._strip_pack:
+            return super().get_optimum_objective_val()
+
+        containers_num = len(self._containers)
+        optimum = 1 if containers_num == 1 else containers_num - 1 + 0.7
+        return optimum - 1e-9
+
     def get_init_solution(self):
         self.solve(debug=False)
         # deepcopying solution
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 1858bfd..74ddc1d 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -82,7 +82,11 @@ class HyperSearchProcess(Process):
             start_time = self.instance.start_time
             max_time_in_seconds = self.instance._max_time_in_seconds
 
-            for strategy in self.strategies_chunk:
+            strategies = self.strategies_chunk
+            if is_global(best_obj_value, optimum_obj_value):
+                strategies = ()
+
+            for strategy in strategies:
                 # set the construction's heuristic potential points strategy
                 self.instance._potential_points_strategy = strategy
 
-- 
2.43.0


From 821dd8c4cfcedf7c6b812ad0b659ae6c23fe4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 16/28] fix: objective value must follow the containers that
 were solved

The cached number of containers is also changed by containers structures that
were replaced, giving a wrong value or an IndexError afterwards.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index bad8c96..73f9cb1 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1122,7 +1122,7 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
         maximum utilization.
         """
         containers_obj_vals = tuple(self.obj_val_per_container.values())
-        if self._containers_num == 1:
+        if len(containers_obj_vals) <= 1:
             return sum([u for u in containers_obj_vals])
         else:
             return (
-- 
2.43.0


From fb7f7cdf7acc812f9ddcc0085b2e38488996fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 17/28] fix: falsy settings of a wrong type must be rejected at
 instantiation

---
 hyperpack/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index edd11b1..40f0472 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -201,7 +201,7 @@ class PointGenerationSolver(
 
         self._rotation = None
 
-        self._settings = settings or {}
+        self._settings = {} if settings is None else settings
         self.validate_settings()
 
         # it's the strategy used for the instance. It can be
-- 
2.43.0


From d95667834410f637fb79e87255bb14f8cdeb30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 18/28] fix: hypersearch processes must use the settings in
 force

---
 hyperpack/heuristics.py | 2 ++
 hyperpack/processes.py  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 40f0472..c586694 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -558,6 +558,8 @@ class HyperPack(
                     container_min_height=container_min_height,
                     container_height=self._container_height,
                     potential_points_strategy=self._potential_points_strategy,
+                    rotation=self._rotation,
+                    max_time_in_seconds=self._max_time_in_seconds,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 74ddc1d..f308bc3 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -34,6 +34,8 @@ class HyperSearchProcess(Process):
         container_min_height=None,
         container_height=None,
         potential_points_strategy=None,
+        rotation=None,
+        max_time_in_seconds=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -62,6 +64,11 @@ class HyperSearchProcess(Process):
             self.instance._container_height = container_height
         if potential_points_strategy is not None:
             self.instance._potential_points_strategy = potential_points_strategy
+        # settings changed without validation are not in force
+        if rotation is not None:
+            self.instance._rotation = rotation
+        if max_time_in_seconds is not None:
+            self.instance._max_time_in_seconds = max_time_in_seconds
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 0af12425e58b1f61e9e6e9621fe0727ada26415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 19/28] fix: rejected settings must not be stored or partly
 applied

---
 hyperpack/heuristics.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index c586694..46870d3 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -278,8 +278,14 @@ class PointGenerationSolver(
 
     @settings.setter
     def settings(self, value):
+        previous_attrs = dict(vars(self))
         self._settings = value
-        self.validate_settings()
+        try:
+            self.validate_settings()
+        except SettingsError:
+            # rejected settings mustn't be stored or partly applied
+            vars(self).update(previous_attrs)
+            raise
 
     @settings.deleter
     def settings(self):
-- 
2.43.0


From b5759b068abca523fc7d1d865e69462bd5fc7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 20/28] fix: the figure settings' show value has precedence

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 73f9cb1..21b6bd6 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -861,7 +861,7 @@ class SolutionFigureMixin:
 
         figure_settings = self._settings.get("figure", {})
         export = figure_settings.get("export")
-        show = figure_settings.get("show") or show
+        show = figure_settings.get("show", show)
 
         if not show and export is None:
             hyperLogger.warning(FigureExportError.NO_FIGURE_OPERATION)
-- 
2.43.0


From f39f2df0cb6d18e1161c5e75816d10f04b387e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 21/28] fix: settings not yet validated must not fail
 hypersearch processes

---
 hyperpack/heuristics.py |  9 +++++++--
 hyperpack/processes.py  | 10 +++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 46870d3..76dd23c 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -548,6 +548,12 @@ class HyperPack(
         min_val = 0
         shared_Array = Array("d", [min_val] * len(strategies_chunks))
         container_min_height = getattr(self, "container_min_height", None)
+        # settings changed without validation have no effect
+        settings_in_force = {
+            "rotation": self._rotation,
+            "max_time_in_seconds": self._max_time_in_seconds,
+            "workers_num": self._workers_num,
+        }
         for i, strategies_chunk in enumerate(strategies_chunks):
             processes.append(
                 HyperSearchProcess(
@@ -556,6 +562,7 @@ class HyperPack(
                     containers=self._containers.deepcopy(),
                     items=self._items.deepcopy(),
                     settings=self._settings,
+                    settings_in_force=settings_in_force,
                     strategies_chunk=strategies_chunk,
                     name=f"hypersearch_{i}",
                     start_time=self.start_time,
@@ -564,8 +571,6 @@ class HyperPack(
                     container_min_height=container_min_height,
                     container_height=self._container_height,
                     potential_points_strategy=self._potential_points_strategy,
-                    rotation=self._rotation,
-                    max_time_in_seconds=self._max_time_in_seconds,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index f308bc3..3bfe322 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -34,8 +34,7 @@ class HyperSearchProcess(Process):
         container_min_height=None,
         container_height=None,
         potential_points_strategy=None,
-        rotation=None,
-        max_time_in_seconds=None,
+        settings_in_force=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -48,6 +47,8 @@ class HyperSearchProcess(Process):
         self.queue = Queue()
         self.strategies_chunk = strategies_chunk
 
+        if settings_in_force is not None:
+            settings = settings_in_force
         settings = deepcopy(settings)
         if "workers_num" in settings:
             settings["workers_num"] = 1
@@ -64,11 +65,6 @@ class HyperSearchProcess(Process):
             self.instance._container_height = container_height
         if potential_points_strategy is not None:
             self.instance._potential_points_strategy = potential_points_strategy
-        # settings changed without validation are not in force
-        if rotation is not None:
-            self.instance._rotation = rotation
-        if max_time_in_seconds is not None:
-            self.instance._max_time_in_seconds = max_time_in_seconds
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 4d3a2a8da61fa130ede60a2d934a577bdd6dd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 22/28] fix: an interrupted hypersearch must restore the
 potential points strategy

---
 hyperpack/heuristics.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 76dd23c..586f910 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -517,8 +517,6 @@ class HyperPack(
                 hyperLogger.debug("Terminating due to surpassed max time")
                 break
 
-        # the instance's strategy was changed only for searching
-        self._potential_points_strategy = init_strategy
         return *retain_solution, best_strategy
 
     @staticmethod
@@ -683,13 +681,18 @@ class HyperPack(
 
         strategies = self.get_strategies(_exhaustive=_exhaustive)
 
-        self.solution, self.obj_val_per_container, self.best_strategy = (
-            self._single_process_hypersearch(strategies, throttle)
-            if self._workers_num == 1
-            else self._multi_process_hypersearch(
-                strategies, throttle, _force_raise_error_index
+        init_strategy = self._potential_points_strategy
+        try:
+            self.solution, self.obj_val_per_container, self.best_strategy = (
+                self._single_process_hypersearch(strategies, throttle)
+                if self._workers_num == 1
+                else self._multi_process_hypersearch(
+                    strategies, throttle, _force_raise_error_index
+                )
             )
-        )
+        finally:
+            # the strategy is changed only for searching, also if interrupted
+            self._potential_points_strategy = init_strategy
 
         total_time = time.time() - self.start_time
         hyperLogger.debug(f"Execution time : {total_time} [sec]")
-- 
2.43.0


From 73bce02d650e9f9f633d00d98ba49f577bf9bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:39 +0000
Subject: [PATCH 23/28] fix: a figure file name must not end with a newline

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21b6bd6..36dbaab 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -788,7 +788,7 @@ class SolutionFigureMixin:
                     if not isinstance(file_name, str):
                         raise SettingsError(SettingsError.FIGURE_EXPORT_FILE_NAME_TYPE)
 
-                    if not self.FIGURE_FILE_NAME_REGEX.match(file_name):
+                    if not self.FIGURE_FILE_NAME_REGEX.fullmatch(file_name):
                         raise SettingsError(SettingsError.FIGURE_EXPORT_FILE_NAME_VALUE)
 
                 if export_type == "image":
-- 
2.43.0


From 6b8de3dbaa64f39f55b064252019e3107d2aeb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 24/28] fix: a figure export path too long for the system must
 raise SettingsError

---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 36dbaab..c1636b7 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -13,6 +13,7 @@ from array import array
 from collections import deque
 from copy import deepcopy
 from pathlib import Path
+import os
 import re
 
 
@@ -762,7 +763,8 @@ class SolutionFigureMixin:
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_VALUE)
 
                 export_path = Path(export_path)
-                if not export_path.exists():
+                # a path that is too long does not exist either
+                if not os.path.exists(export_path):
                     raise SettingsError(SettingsError.FIGURE_EXPORT_PATH_NOT_EXISTS)
 
                 if not export_path.is_dir():
-- 
2.43.0


From 0375461ee195ebc52eb7cdc0ab6533ee37a45364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:16 +0000
Subject: [PATCH 25/28] fix: a worker dying while it looks at the shared values
 must not block the others

---
 hyperpack/heuristics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 586f910..4a98fcd 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -544,7 +544,9 @@ class HyperPack(
 
         processes = []
         min_val = 0
-        shared_Array = Array("d", [min_val] * len(strategies_chunks))
+        # every process writes only its own value. With a lock, a process
+        # dying while it has it would block all the others
+        shared_Array = Array("d", [min_val] * len(strategies_chunks), lock=False)
         container_min_height = getattr(self, "container_min_height", None)
         # settings changed without validation have no effect
         settings_in_force = {
-- 
2.43.0


From 9fdbac82829b53b1c863384c4a378a6f4500c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 26/28] fix: a worker dying while it hands over its result must
 not block hypersearch

---
 hyperpack/heuristics.py | 19 ++++++++-----------
 hyperpack/processes.py  |  8 ++++----
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4a98fcd..3d9e5b1 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -4,7 +4,6 @@ import sys
 import time
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
-from queue import Empty
 
 from . import constants
 from . import mixins
@@ -523,15 +522,12 @@ class HyperPack(
     def _receive_process_output(process):
         """
         Returns the output of a hypersearch process,
-        or None if the process died before giving any.
+        or None if the process died before giving all of it.
         """
-        while True:
-            is_alive = process.is_alive()
-            try:
-                return process.queue.get(timeout=0.1)
-            except Empty:
-                if not is_alive:
-                    return None
+        try:
+            return process.receiver.recv()
+        except (EOFError, OSError):
+            return None
 
     def _multi_process_hypersearch(
         self, strategies: tuple, throttle: bool, _force_raise_error_index
@@ -576,6 +572,8 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+            # the end of the process must be the end of its pipe
+            p.sender.close()
         # a process can't be joined before its output is received
         outputs = [self._receive_process_output(p) for p in processes]
         for p in processes:
@@ -614,12 +612,11 @@ class HyperPack(
             f"\nWinning Process {win_process.name} found max\n"
             f"\tobj_val = {win_metrics[0]}\n\tsequence = {win_metrics[3]}"
         )
-        win_process.queue.close()
 
         # Log rest of the processes
         # UNCOMMENT FOR EXTRA DEBUGGING ON PROCESSES
         for p in processes:
-            p.queue.close()
+            p.receiver.close()
 
         return (best_solution, best_obj_val_per_container, best_strategy)
 
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 3bfe322..e1d9f1e 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -1,5 +1,5 @@
 from time import time
-from multiprocessing import Process, Queue
+from multiprocessing import Pipe, Process
 from .exceptions import MultiProcessError
 from .loggers import hyperLogger
 from copy import deepcopy
@@ -44,7 +44,7 @@ class HyperSearchProcess(Process):
         self._force_raise_error_index = _force_raise_error_index
         self.index = index
         self.shared_array = shared_array
-        self.queue = Queue()
+        self.receiver, self.sender = Pipe(duplex=False)
         self.strategies_chunk = strategies_chunk
 
         if settings_in_force is not None:
@@ -135,7 +135,7 @@ class HyperSearchProcess(Process):
                     break
 
             output = (best_obj_value, *retain_solution, best_strategy)
-            self.queue.put(output)
+            self.sender.send(output)
 
         # % ------------ Exception case -----------
         except Exception as e:
@@ -143,4 +143,4 @@ class HyperSearchProcess(Process):
                 f"Process {self.name} failed with error: \n\t{str(e)}\n"
             )
             self.shared_array[self.index] = -1
-            self.queue.put((-1, {}, {}, None))
+            self.sender.send((-1, {}, {}, None))
-- 
2.43.0


From 72a6afa50951f4fd030a254da3452dd610fa3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 27/28] fix: items and containers without a problem must be
 usable

Their changes are guarded for a missing instance, but assigning,
deleting and printing looked at its attributes all the same.
---
 hyperpack/structures.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 4b95dd4..1395b55 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -105,7 +105,7 @@ class Dimensions(UserDict):
         """
         # only strip pack case
         if (
-            self.instance._strip_pack
+            getattr(self.instance, "_strip_pack", False)
             and self.proper_keys == {"W", "L"}
             and self.data != {}
         ):
@@ -172,7 +172,7 @@ class AbstractStructureSet(UserDict):
 
         Proper structure_id format enforced.
         """
-        if self.instance._strip_pack and isinstance(self, Containers):
+        if getattr(self.instance, "_strip_pack", False) and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
         self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
@@ -190,7 +190,9 @@ class AbstractStructureSet(UserDict):
             raise self.ERROR_CLASS(self.ERROR_CLASS.CANT_DELETE_STRUCTURE)
 
         del self.data[key]
-        self.reset_instance_attrs()
+
+        if self.instance is not None:
+            self.reset_instance_attrs()
 
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
@@ -310,7 +312,7 @@ class Containers(AbstractStructureSet):
             width = self.data[structure_id][self.WIDTH]
             length = self.data[structure_id][self.LENGTH]
 
-            if self.instance._strip_pack:
+            if getattr(self.instance, "_strip_pack", False):
                 strings_list.append(f"  - id: {structure_id}\n    width: {width}\n")
             else:
                 strings_list.append(
-- 
2.43.0


From 7463e3dff9c0909501d4b62a802ef10fe7af4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:09 +0000
Subject: [PATCH 28/28] fix: image exports must not change plotly's default
 image size

---
 hyperpack/mixins.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index c1636b7..ee80258 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -952,17 +952,13 @@ class SolutionFigureMixin:
                         fig.write_html(export_path / f"{file_name}__{cont_id}.html")
 
                     elif export_type == "image":
-                        import plotly.io as pio
-
                         file_format = export["format"]
-                        width = export.get("width") or 1700
-                        height = export.get("height") or 1700
-                        scale = 1
-                        pio.kaleido.scope.default_width = width
-                        pio.kaleido.scope.default_height = height
-                        pio.kaleido.scope.default_scale = scale
+                        # plotly's default size must stay as it is
                         fig.write_image(
-                            export_path / f"{file_name}__{cont_id}.{file_format}"
+                            export_path / f"{file_name}__{cont_id}.{file_format}",
+                            width=export.get("width") or 1700,
+                            height=export.get("height") or 1700,
+                            scale=1,
                         )
 
                 except Exception as e:
-- 
2.43.0

