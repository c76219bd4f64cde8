From 17ed9efa919a9ce572c1bf92e38ba1ed0ea1f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 01/34] fix: BreakLink, LossLink and PiecewiseLink report the
 limits and costs that were set on them

BreakLink and LossLink keep their limits and cost on an internal link but answered get_min_flow/get_max_flow/get_cost
(and the all-scenario queries) from their own unused defaults; PiecewiseLink summed its steps for one scenario but not
for the all-scenario query.
---
 pywr/nodes.py | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..32e8a1f 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -837,6 +837,18 @@ class PiecewiseLink(Node):
     def get_max_flow(self, si):
         return sum([sl.get_max_flow(si) for sl in self.sublinks])
 
+    def get_all_min_flow(self, out=None):
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        out[:] = sum([np.asarray(sl.get_all_min_flow()) for sl in self.sublinks])
+        return out
+
+    def get_all_max_flow(self, out=None):
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        out[:] = sum([np.asarray(sl.get_all_max_flow()) for sl in self.sublinks])
+        return out
+
     def costs():
         def fget(self):
             return [sl.cost for sl in self.sublinks]
@@ -1157,6 +1169,24 @@ class BreakLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, si):
+        return self.link.get_min_flow(si)
+
+    def get_all_min_flow(self, out=None):
+        return self.link.get_all_min_flow(out)
+
+    def get_max_flow(self, si):
+        return self.link.get_max_flow(si)
+
+    def get_all_max_flow(self, out=None):
+        return self.link.get_all_max_flow(out)
+
+    def get_cost(self, si):
+        return self.link.get_cost(si)
+
+    def get_all_cost(self, out=None):
+        return self.link.get_all_cost(out)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             # connecting FROM the transfer TO something else
@@ -1352,6 +1382,24 @@ class LossLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, si):
+        return self.net.get_min_flow(si)
+
+    def get_all_min_flow(self, out=None):
+        return self.net.get_all_min_flow(out)
+
+    def get_max_flow(self, si):
+        return self.net.get_max_flow(si)
+
+    def get_all_max_flow(self, out=None):
+        return self.net.get_all_max_flow(out)
+
+    def get_cost(self, si):
+        return self.net.get_cost(si)
+
+    def get_all_cost(self, out=None):
+        return self.net.get_all_cost(out)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             yield self.net
-- 
2.43.0


From 57345bab3d62736eb5a916f99a12225f2f691554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 02/34] fix: previous flow of aggregated and compound nodes

AggregatedNode, AggregatedStorage, BreakLink, DelayNode and LossLink saved their previous flow before this step's flow was
known, so prev_flow was always zero.
---
 pywr/_core.pyx | 8 ++++++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..820bd46 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -775,6 +774,9 @@ cdef class AggregatedNode(AbstractNode):
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
 
+        # Make sure save is done after setting aggregated flow
+        AbstractNode.after(self, ts)
+
     property factors:
         def __get__(self):
             return self._factors
@@ -1399,7 +1401,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1426,6 +1427,9 @@ cdef class AggregatedStorage(AbstractStorage):
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
 
+        # Make sure save is done after setting aggregated flow
+        AbstractStorage.after(self, ts)
+
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
         cdef Storage s
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 32e8a1f..db129f5 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1196,9 +1196,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting the flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1264,9 +1265,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1407,9 +1409,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 99b3a032ae20377c8d7b1632e3cf595ce3ae32ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 03/34] fix: previous flow of an inactive virtual storage

It kept reporting the flow of the last step in which it was active.
---
 pywr/_core.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 820bd46..be20932 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1495,6 +1495,9 @@ cdef class VirtualStorage(Storage):
                 for n, f in zip(self._nodes, self._factors):
                     self._flow[i] -= f*n._flow[i]
             Storage.after(self, ts, adjustment=adjustment)
+        else:
+            # No flow is taken from an inactive storage; its volume is unchanged
+            AbstractStorage.after(self, ts)
 
 
 cdef class RollingVirtualStorage(VirtualStorage):
-- 
2.43.0


From 6640ab05fdc3981dc42f767992f3a36e17812ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 04/34] fix: make the thresholds of multiple threshold
 parameters their children

The list itself was passed to children.add(), which ignores it, so the threshold parameters were not ordered before the parameter using them.
---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 584403f6d7fa820916cd984ce7b2f1ec6974f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 05/34] fix: members selected by a scenario slice without a
 plain stop

slice.indices() takes the length of the sequence, not the stop of the slice: slices with no stop, a negative start or stop, or one beyond the size failed in setup() or selected the wrong members.
---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..bd4f64a 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(self.scenario.size)[self.scenario.slice]
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(self.scenario.size)[self.scenario.slice]
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From 20c88f16d755b103299254a5f228da5e8f837a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:04 +0000
Subject: [PATCH 06/34] fix: pass the keyword arguments of DataFrameParameter
 on

They were expanded as positional arguments, so the name of the parameter became 'name' and its comment was lost.
---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index bd4f64a..0c280d5 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From eb9b0492f58ffb8467d4ac5e123d7fea5bbf1c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 07/34] fix: constant maximum volume parameters in
 WeightedAverageProfileParameter

is_constant is an attribute; calling it failed.
---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..4126199 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From 84628fa99121e77ab0a531d82d250f32a883b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 08/34] fix: annual licence left with a negative remainder by a
 step across the year end

---
 pywr/parameters/licenses.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..1580558 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -143,6 +143,7 @@ class AnnualLicense(StorageLicense):
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
+            self._remaining[self._remaining < 0] = 0.0
 
             self._prev_year = timestep.year
 
-- 
2.43.0


From c182da96cd622724f4acf48a0fc334acdc88c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 09/34] fix: keep the day-of-year bounds of RbfProfileParameter
 within the year

With variable_days_of_year_range the upper bound of the last day could
exceed 365, so a vector inside the declared bounds was refused.
---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 0c280d5..f772dc9 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1086,7 +1086,7 @@ cdef class RbfProfileParameter(Parameter):
             self.integer_size = len(values) - 1
             self._doy_lower_bounds = np.array([d - self.variable_days_of_year_range
                                                for d in self.days_of_year[1:]], dtype=np.int32)
-            self._doy_upper_bounds = np.array([d + self.variable_days_of_year_range
+            self._doy_upper_bounds = np.array([min(d + self.variable_days_of_year_range, 365)
                                                for d in self.days_of_year[1:]], dtype=np.int32)
         else:
             self.integer_size = 0
-- 
2.43.0


From d12c6f3a68611016cbffa3408bb9be1ac29b01d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 10/34] fix: keep the comment of a parameter loaded by
 Parameter.load

The comment was popped from the document but not passed on.
---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index f772dc9..7838938 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,9 +137,9 @@ cdef class Parameter(Component):
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
-- 
2.43.0


From 26feb9cb9997bff7fb1892922217cdfbade3c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 11/34] fix: normalised storage of a full storage with its
 control curve at full

NumpyArrayNormalisedStorageRecorder raised ZeroDivisionError when both the
storage and the control curve were at 1.0.
---
 pywr/recorders/_recorders.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..6dfcc73 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1223,6 +1223,9 @@ cdef class NumpyArrayNormalisedStorageRecorder(NumpyArrayAbstractStorageRecorder
             if vol < cc:
                 # Lower than control curve; value between -1.0 and 0.0
                 norm_vol = vol / cc - 1.0
+            elif cc == 1.0:
+                # Full, with the control curve at full as well
+                norm_vol = 1.0
             else:
                 # At or above control curve; value between 0.0 and 1.0
                 norm_vol = (vol - cc) / (1.0 - cc)
-- 
2.43.0


From 6e38d5db04f4d30903f358084cf515fd8489983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 12/34] fix: keep the factor of NumpyArrayNodeRecorder in
 double precision

It was declared as a C float, so recorded flows were scaled by the factor
rounded to single precision.
---
 pywr/recorders/_recorders.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index c456d2c..86195ad 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -41,7 +41,7 @@ cdef class IndexParameterRecorder(Recorder):
 cdef class NumpyArrayNodeRecorder(NodeRecorder):
     cdef Aggregator _temporal_aggregator
     cdef double[:, :] _data
-    cdef public float factor
+    cdef public double factor
 
 cdef class NumpyArrayNodeDeficitRecorder(NumpyArrayNodeRecorder):
     pass
-- 
2.43.0


From 431b8ae8e87f63eda0dc7b0bceecb6522c423d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 13/34] fix: means and frequencies of recorders divide by the
 steps recorded

MeanFlowNodeRecorder, DeficitFrequencyNodeRecorder and MeanParameterRecorder
divided by the index of the current timestep, which is one short for the
second and later models of a MultiModel and for models advanced by step().
---
 pywr/recorders/_recorders.pxd |  4 +++-
 pywr/recorders/_recorders.pyx | 24 ++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index 86195ad..089f110 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -123,9 +123,10 @@ cdef class TotalFlowNodeRecorder(BaseConstantNodeRecorder):
 
 cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
     cdef public double factor
+    cdef int _steps
 
 cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
-    pass
+    cdef int _steps
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
     cdef double[:] _values
@@ -185,3 +186,4 @@ cdef class TotalParameterRecorder(BaseConstantParameterRecorder):
 
 cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
     cdef public double factor
+    cdef int _steps
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 6dfcc73..d1a2a00 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1789,25 +1789,33 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
         self.factor = kwargs.pop('factor', 1.0)
         super(MeanFlowNodeRecorder, self).__init__(*args, **kwargs)
 
+    cpdef reset(self):
+        BaseConstantNodeRecorder.reset(self)
+        self._steps = 0
+
     cpdef after(self):
         cdef ScenarioIndex scenario_index
         cdef int i
         for scenario_index in self.model.scenarios.combinations:
             i = scenario_index.global_id
             self._values[i] += self._node._flow[i]*self.factor
+        self._steps += 1
         return 0
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._steps
 MeanFlowNodeRecorder.register()
 
 
 cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
     """Recorder to return the frequency of timesteps with a failure to meet max_flow.
     """
+    cpdef reset(self):
+        BaseConstantNodeRecorder.reset(self)
+        self._steps = 0
+
     cpdef after(self):
         cdef double max_flow
         cdef ScenarioIndex scenario_index
@@ -1817,12 +1825,12 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
             max_flow = node.get_max_flow(scenario_index)
             if abs(node._flow[scenario_index.global_id] - max_flow) > 1e-6:
                 self._values[scenario_index.global_id] += 1.0
+        self._steps += 1
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._steps
 DeficitFrequencyNodeRecorder.register()
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
@@ -2338,6 +2346,10 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
         self.factor = kwargs.pop('factor', 1.0)
         super(MeanParameterRecorder, self).__init__(*args, **kwargs)
 
+    cpdef reset(self):
+        BaseConstantParameterRecorder.reset(self)
+        self._steps = 0
+
     cpdef after(self):
         cdef ScenarioIndex scenario_index
         cdef int i
@@ -2348,11 +2360,11 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
         for scenario_index in self.model.scenarios.combinations:
             i = scenario_index.global_id
             self._values[i] += values[i]*factor
+        self._steps += 1
         return 0
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._steps
 MeanParameterRecorder.register()
-- 
2.43.0


From c518a2bae023bd75d17bab4c594f366d8fd2b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 14/34] fix: an event is active while the value of its
 threshold is non-zero

Values of recorders and parameters were cut to integers first, so that
fractions below one never started an event.
---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..9247be4 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.asarray(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.asarray(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From 8ac1073fcee13b0ee0191bc66f7a85be0ecd915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 15/34] fix: the minimum event length applies to events
 unfinished at the end

---
 pywr/recorders/events.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index 9247be4..09157d4 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -77,12 +77,14 @@ class EventRecorder(Recorder):
 
     def reset(self):
         self.events = []
+        self._num_steps = 0
         # This list stores if an event is current active in each scenario.
         self._current_events = [None for si in self.model.scenarios.combinations]
 
     def after(self):
         # Current timestep
         ts = self.model.timestepper.current
+        self._num_steps = ts.index + 1
 
         from pywr.parameters import Parameter, IndexParameter
 
@@ -155,7 +157,9 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                current_length = self._num_steps - current_event.start.index
+                if current_length >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
-- 
2.43.0


From 98ec28638b98ccc51d9eb5c1cb9a4444c703b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 16/34] fix: ignore missing values along an axis without
 flattening the data

---
 pywr/recorders/_recorders.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index d1a2a00..a562790 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -146,7 +146,8 @@ cdef class Aggregator:
         cdef Py_ssize_t i
 
         if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+            # The number of values may differ between the slices along the axis
+            return np.array([self.aggregate_1d(v, ignore_nan=True) for v in np.moveaxis(np.asarray(values), axis, -1)])
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From b5cb45732c93970ea9723a7ce70342226aae2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 17/34] fix: median, count_nonzero and the default function in
 AggregatedRecorder

---
 pywr/recorders/_recorders.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index a562790..1dae9bc 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -382,7 +382,7 @@ cdef class AggregatedRecorder(Recorder):
     """
     def __init__(self, model, recorders, **kwargs):
         # Optional different method for aggregating across self.recorders scenarios
-        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
+        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func', 'mean'))
 
         if isinstance(agg_func, str):
             agg_func = _agg_func_lookup[agg_func.lower()]
@@ -442,6 +442,10 @@ cdef class AggregatedRecorder(Recorder):
                     value[i] += value2[i]
             for i in range(n):
                 value[i] /= len(self.recorders)
+        elif self._recorder_agg_func == AggFuncs.MEDIAN:
+            value = np.median([recorder.values() for recorder in self.recorders], axis=0)
+        elif self._recorder_agg_func == AggFuncs.COUNT_NONZERO:
+            value = np.count_nonzero([recorder.values() for recorder in self.recorders], axis=0).astype(np.float64)
         else:
             value = self.recorder_agg_func([recorder.values() for recorder in self.recorders], axis=0)
         return value
-- 
2.43.0


From 96e99495fb35771f6603de49ac8e26209b0cd9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 18/34] fix: a timestep given as a timedelta is not cut to
 whole days

---
 pywr/timestepper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/timestepper.py b/pywr/timestepper.py
index e7282ce..faf63d4 100644
--- a/pywr/timestepper.py
+++ b/pywr/timestepper.py
@@ -157,6 +157,9 @@ class Timestepper(object):
             freq = "{}D".format(d)
         elif isinstance(d, datetime.timedelta):
             freq = "{}D".format(d.days)
+            if d.seconds or d.microseconds:
+                # Not a whole number of days
+                freq = pandas.tseries.frequencies.to_offset(d)
         else:
             freq = d
         return freq
-- 
2.43.0


From 4b28971ae635803d8c3e6ad6cbe51c87483a8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 19/34] fix: an annual virtual storage whose reset date falls
 between two steps of different years resets

---
 pywr/nodes.py | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index db129f5..75fda50 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,31 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
-        if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
-                # Assume we reset before the model started
-                self._last_reset_year = ts.year
-
-        # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
-
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+        # The year of the latest reset date that is not after this timestep
+        reset_year = ts.year
+        if ts.month < self.reset_month or (
+            ts.month == self.reset_month and ts.day < self.reset_day
+        ):
+            reset_year -= 1
+
+        if ts.index == 0 and not (
+            ts.month == self.reset_month and ts.day == self.reset_day
+        ):
+            # Assume we reset before the model started
+            self._last_reset_year = reset_year
+
+        # Reset the storage volume if a reset date has been reached since the last reset
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
+
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
+            self.active = True
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
-- 
2.43.0


From 35046cc67ad3582b9ef43f78a9c0c5865526dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 20/34] fix: a seasonal virtual storage is inactive outside its
 season from the first timestep of every run

---
 pywr/nodes.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 75fda50..ed19718 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -688,36 +688,26 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
 
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        # The node operates from the reset date up to, but not including, the end date
+        started = ts.month > self.reset_month or (
+            ts.month == self.reset_month and ts.day >= self.reset_day
+        )
+        ended = ts.month > self.end_month or (
+            ts.month == self.end_month and ts.day >= self.end_day
+        )
+        if self.end_month < self.reset_month or (
+            self.end_month == self.reset_month and self.end_day <= self.reset_day
+        ):
+            # The period of operation crosses the year boundary
+            self.active = started or not ended
+        else:
+            self.active = started and not ended
 
 
 class MonthlyVirtualStorage(VirtualStorage):
-- 
2.43.0


From 978095957f769a1e905352347e9fb3230799af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 21/34] fix: a monthly virtual storage counts every calendar
 month a timestep passes

---
 pywr/nodes.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index ed19718..cf86400 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -738,14 +738,21 @@ class MonthlyVirtualStorage(VirtualStorage):
 
     def before(self, ts):
         super().before(ts)
-        if ts.month != self._last_month:
-            self._last_month = ts.month
+        # Number of calendar months since the previous timestep (one for the first)
+        month = ts.year * 12 + ts.month
+        if self._last_month is None:
             self._count += 1
-            if self._count == self.months:
-                self._count = 0
-                self._reset_storage_only(
-                    use_initial_volume=self.reset_to_initial_volume
-                )
+        else:
+            self._count += month - self._last_month
+        self._last_month = month
+
+        if self._count >= self.months:
+            self._count %= self.months
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # The maximum volume is not evaluated before the first timestep
+                use_initial_volume = True
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
 
 
 class PiecewiseLink(Node):
-- 
2.43.0


From 43e84671fab01e9e6dcb0ecd3ee245fc7fac9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 22/34] fix: reset the child nodes of compound nodes with the
 model

---
 pywr/_model.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..653a9df 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,8 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        # Every node of the graph, including the children of compound nodes
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
@@ -777,7 +778,8 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                # the children of compound nodes are not profiled separately
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From 424faf3e7e4ef166c3ce0753d7b2be9483d37b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 23/34] fix: reset the flows of an aggregated storage and its
 proportion without values of an earlier run

---
 pywr/_core.pyx | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index be20932..29db634 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1385,15 +1385,32 @@ cdef class AggregatedStorage(AbstractStorage):
 
     cpdef reset(self):
         cdef int i
+        cdef Storage s
         cdef double mxv = 0.0
+        cdef double initial_volume = 0.0
+        cdef double volume, pc
         cdef ScenarioIndex si
 
-        for i, si in enumerate(self.model.scenarios.combinations):
-            mxv = 0.0
-            for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
+        AbstractStorage.reset(self)
 
-            self._volume[i] = self.initial_volume
+        for s in self._storage_nodes:
+            volume = s.get_initial_volume()
+            initial_volume += volume
+            if s._max_volume_param is None:
+                mxv += s._max_volume
+            elif s._max_volume_param.is_constant:
+                mxv += s._max_volume_param.get_constant_value()
+            else:
+                # The parameter is not evaluated before the first timestep; use the maximum volume
+                # implied by the initial volume, which has to be given both ways.
+                pc = s.get_initial_pc()
+                try:
+                    mxv += volume / pc
+                except ZeroDivisionError:
+                    mxv = np.nan
+
+        for i, si in enumerate(self.model.scenarios.combinations):
+            self._volume[i] = initial_volume
             # Ensure variable maximum volume is taken in to account
             try:
                 self._current_pc[i] = self._volume[i] / mxv
-- 
2.43.0


From 10cf8f8bbe7d8dee421e83607bd9b5b530931b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 24/34] fix: keep a dependency that is used more than once when
 one of its uses is removed

---
 pywr/_component.pyx | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 1b00d6b..9d52a0d 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -15,21 +15,29 @@ class GraphInterface:
     def graph(self):
         return self.obj.model.component_graph
 
+    def _edge(self, item):
+        if self is self.obj.children:
+            return item, self.obj
+        else:
+            return self.obj, item
+
     def add(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.add_edge(item, self.obj)
-        else:
-            self.graph.add_edge(self.obj, item)
+        u, v = self._edge(item)
+        # A component can be used more than once by the same parent (e.g. by two of its properties).
+        uses = self.graph.edges[u, v].get("uses", 1) if self.graph.has_edge(u, v) else 0
+        self.graph.add_edge(u, v, uses=uses + 1)
 
     def remove(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.remove_edge(item, self.obj)
+        u, v = self._edge(item)
+        uses = self.graph.edges[u, v].get("uses", 1) if self.graph.has_edge(u, v) else 1
+        if uses > 1:
+            self.graph.add_edge(u, v, uses=uses - 1)
         else:
-            self.graph.remove_edge(self.obj, item)
+            self.graph.remove_edge(u, v)
 
     def clear(self):
         for n in self._members:
-- 
2.43.0


From d1014459329f25b6646e9d408b1fd19afa465972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 25/34] fix: use changed user combinations and scenario slices
 in the next run

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..51553e3 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -4,7 +4,8 @@ from .parameters._parameters cimport Parameter
 cdef class Scenario:
     cdef basestring _name
     cdef int _size
-    cdef public slice slice
+    cdef object _model
+    cdef slice _slice
     cdef object _ensemble_names
 
 cdef class ScenarioCollection:
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 29db634..2a607f7 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -44,11 +44,20 @@ cdef class Scenario:
         if size < 1:
             raise ValueError("Size must be greater than or equal to 1.")
         self._size = size
-        self.slice = slice
+        self._slice = slice
         self.ensemble_names = ensemble_names
+        self._model = model
         # Do this last so only set on the model if no error is raised.
         model.scenarios.add_scenario(self)
 
+    property slice:
+        def __get__(self):
+            return self._slice
+
+        def __set__(self, value):
+            self._slice = value
+            self._model.dirty = True
+
     property size:
         def __get__(self, ):
             return self._size
@@ -135,10 +144,11 @@ cdef class ScenarioCollection:
             return self._user_combinations
 
         def __set__(self, values):
+            cdef Scenario sc
             if values is None:
                 self._user_combinations = None
+                self.model.dirty = True
                 return
-            cdef Scenario sc
             values = np.asarray(values, dtype=np.int32)
             if values.ndim != 2:
                 raise ValueError('A 2-dimensional array of scenario indices must be provided.')
@@ -152,6 +162,7 @@ cdef class ScenarioCollection:
                 raise ValueError('Ensemble index less than zero is invalid.')
 
             self._user_combinations = values
+            self.model.dirty = True
 
     cpdef int get_scenario_index(self, Scenario sc) except? -1:
         """Return the index of Scenario in this controller."""
-- 
2.43.0


From 629e2bfbd3f11c7629cda2995e2e08daefa4d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:12 +0000
Subject: [PATCH 26/34] fix: refuse user combinations without a member of every
 scenario

---
 pywr/_core.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 2a607f7..4d44704 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -124,6 +124,8 @@ cdef class ScenarioCollection:
             combinations = [ScenarioIndex(0, np.array([0], dtype=np.int32))]
         elif self._user_combinations is not None:
             # use combinations given by user
+            if self._user_combinations.shape[1] != len(self._scenarios):
+                raise ValueError('User defined combinations must have shape (N, S) where S in number of Scenarios')
             combinations = list([ScenarioIndex(i, self._user_combinations[i, :])
                                  for i in range(self._user_combinations.shape[0])])
         else:
-- 
2.43.0


From 5d99c198ea45eee38587acdb9b40bfb16fc4e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 27/34] fix: end a bisection when there is no value left
 between its bounds

---
 pywr/utils/bisect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 52df52c..b3842a3 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -87,6 +87,9 @@ class BisectionSearchModel(Model):
         while (max_value - min_value) > self.bisect_epsilon:
             # Compute the current value to try as the middle of the bounds
             current_value = (max_value + min_value) / 2
+            if not min_value < current_value < max_value:
+                # There is no value between the bounds left to try
+                break
             logger.debug(
                 f"Performing bisection run with value: {current_value:.4f}; "
                 f"bounds [{min_value:.4f}, {max_value:.4f}]"
-- 
2.43.0


From 80e8a44903fbb54451bff8c6256ababb0fbb0c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 28/34] fix: compare every scenario with observed data and
 return plain arrays from calibration recorders

---
 pywr/recorders/calibration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/calibration.py b/pywr/recorders/calibration.py
index d249cc6..baab8ea 100644
--- a/pywr/recorders/calibration.py
+++ b/pywr/recorders/calibration.py
@@ -30,9 +30,14 @@ class AbstractComparisonNodeRecorder(NumpyArrayNodeRecorder):
         # Align the observed data to the model
         from pywr.parameters import align_and_resample_dataframe
 
-        self._aligned_observed = align_and_resample_dataframe(
+        aligned = align_and_resample_dataframe(
             self.observed, self.model.timestepper.datetime_index
         )
+        # One column for each scenario combination, or a single column for all of them
+        observed = np.array(aligned, dtype=np.float64)
+        if observed.ndim == 1:
+            observed = observed[:, np.newaxis]
+        self._aligned_observed = observed
 
 
 class RootMeanSquaredErrorNodeRecorder(AbstractComparisonNodeRecorder):
-- 
2.43.0


From 54726435a168542dee747d463481b998a96e8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 29/34] fix: compare with the scenario's own target in a loaded
 flow duration curve deviation recorder

load() dropped the scenario.  A single target for all members of the scenario, which finish() supports and load() accepted
so far because the scenario was dropped, stays allowed.
---
 pywr/recorders/_recorders.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 1dae9bc..22c88f4 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -986,10 +986,12 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and \
+                        self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and \
+                        self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1103,7 +1105,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From 80bef14e6537dac0c1dd05fa4662962cf507e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 30/34] fix: add up the weights of members of an aggregated
 node that share a route or edge

The limits of an aggregated node applied to only one of several members on the same route.
---
 pywr/solvers/cython_glpk.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..c9c57e9 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,8 +686,9 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                    # count what is counted as the flow of the node; several members may share a route
+                    if route[0] is some_node or route[-1] is some_node or (isinstance(some_node, BaseLink) and some_node in route):
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
             val = <double*>malloc(1+length * sizeof(double))
@@ -1517,7 +1518,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
-- 
2.43.0


From e9024b0604c48e51a09c197f550999c1c4da3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 31/34] fix: leave an inactive virtual storage unconstrained
 when its limits coincide

---
 pywr/solvers/cython_glpk.pyx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index c9c57e9..087bcc0 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -993,16 +993,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
@@ -1817,16 +1817,16 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
-- 
2.43.0


From 245a1a363d4ae79e065939a29633d8d2f22fdf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 32/34] fix: allocate the matrix rows of aggregated nodes in
 full and name the node in the error

---
 pywr/solvers/cython_glpk.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 087bcc0..7abdd91 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -690,8 +690,8 @@ cdef class CythonGLPKSolver(GLPKSolver):
                     if route[0] is some_node or route[-1] is some_node or (isinstance(some_node, BaseLink) and some_node in route):
                         matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1521,8 +1521,8 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1531,7 +1531,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 set_mat_row_safe(self.prob, row, length, ind, val)
                 set_row_bnds_safe(self.prob, row, GLP_FX, 0.0, 0.0)
             except GLPKError, GLPKInternalError:
-                logger.error(f"A GLPK error occurred during creation of aggregated node constraints for node: {storage}")
+                logger.error(f"A GLPK error occurred during creation of aggregated node constraints for node: {agg_node}")
                 raise
             finally:
                 free(ind)
-- 
2.43.0


From 1129653f74c9a512dec290ef8c78f0579922e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 33/34] fix: hand integer variables over in the pygmo wrapper

---
 pywr/optimisation/pygmo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..6717462 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,13 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
-- 
2.43.0


From 1145713d458d035560120af0d3817ee5e02f76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 34/34] fix: measure pygmo equality constraints from their
 bound

---
 pywr/optimisation/pygmo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 6717462..8736278 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -31,6 +31,7 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         # Return separate lists for equality and inequality constraints.
         # pygmo requires that inequality constraints are all of the form g(x) <= 0
+        # and equality constraints of the form g(x) = 0.
         # Therefore these are converted to this form from their respective bounds.
         eq_constraints = []
         ineq_constraints = []
@@ -41,7 +42,7 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0

