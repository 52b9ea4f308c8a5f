From 478650cb7ee7bc27ac102798cea187b9c758ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 01/27] fix: normalise the Log10Normal luminosity density
 (missing 1/ln 10)

---
 popsynth/distributions/log10_normal_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..638ed39 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,7 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From 4585ad7e195f1dcdaf460806a839dc0527296252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 02/27] fix: use log10 for the lower bound of
 TruncatedLog10NormalAuxSampler

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From fa48428427c0ce9be82dc795788b68841ff2237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 03/27] fix: give BrokenPowerLawAuxSampler its documented sigma
 parameter

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..e4eca71 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -109,6 +109,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From 4218fe7ef1b079a27b2497298e1030a545591971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 04/27] fix: draw the PowerLawAuxSampler uniforms from the
 seeded generator

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index e4eca71..6952238 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,12 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # draw outside of numba, which keeps a random state of its own
+        # that does not follow the seed of the survey
+        u = np.atleast_1d(np.random.uniform(0, 1, size=size))
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            u, self.xmin, self.xmax, self.alpha
         )
 
     def observation_sampler(self, size: int):
@@ -158,25 +162,23 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
-
-    out = np.empty(size)
+def _sample_power_law(u, xmin, xmax, alpha):
 
-    for i in range(size):
+    out = np.empty(len(u))
 
-        u = np.random.uniform(0, 1)
+    for i in range(len(u)):
 
         if alpha != -1.0:
 
             x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u
+                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u[i]
                 + np.power(xmin, alpha + 1),
                 1.0 / (alpha + 1.0),
             )
 
         else:
 
-            x = xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
+            x = xmin * np.exp(u[i] / (1.0 / np.log(xmax / xmin)))
 
         out[i] = x
 
-- 
2.43.0


From 11faf8c901a85685eebdfe17fee36dbf26836f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 05/27] fix: AuxiliarySampler has no _graph, use the graph that
 was passed

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..c12735e 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
-- 
2.43.0


From daf3a7dec53249f0d878a3be0907837119db7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 06/27] fix: pass the luminosities on to nested secondary
 samplers

---
 popsynth/auxiliary_sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c12735e..3b77ce5 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -363,6 +363,12 @@ class AuxiliarySampler(
 
                 v.set_spatial_values(self._spatial_values)
 
+                # the luminosity is not known if it is being derived
+
+                if getattr(self, "_luminosity", None) is not None:
+
+                    v.set_luminosity(self._luminosity)
+
                 v.draw(size=size)
 
             # Now, it is assumed that if this sampler depends on the previous samplers,
-- 
2.43.0


From d5767c91d80b2a027d9383dcada7e5fca9be71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 07/27] fix: give the distance selection the distances and
 allow it to select none

---
 popsynth/population_synth.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..1533781 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1345,6 +1345,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        # the distances of the selected objects are those which can be known
+
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
@@ -1355,12 +1361,16 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.info(f"Detected {len(known_distances)} distances")
 
-        if global_selection.n_selected > 0:
+        if len(known_distances) > 0:
 
             log.info(
                 f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
             )
 
+        elif global_selection.n_selected > 0:
+
+            log.warning("No distances are known")
+
         else:
 
             log.warning("No Objects detected")
-- 
2.43.0


From 5b150d8ad00b641c9ae8696e2050aee8af758dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 08/27] fix: rebuild the graph from scratch and with all
 distance and observed edges

---
 popsynth/population_synth.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 1533781..f29a6f4 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1513,6 +1513,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start from a new graph so that nothing is left over from samplers
+        # that were removed and graphs of earlier populations are not altered
+
+        self._graph = nx.DiGraph()
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
@@ -1540,6 +1546,15 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(k2)
                 self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    self._graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    self._graph.add_node(v2.obs_name, observed=True)
+                    self._graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
@@ -1564,9 +1579,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(v.obs_name, observed=False)
                 self._graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                self._graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From 843753743c4798d92847d47247afcd20b3ca636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 09/27] fix: store the type and not the name of a derived
 luminosity sampler

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index f29a6f4..fef05b1 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -302,7 +302,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp[
+                "type"
+            ] = self._derived_luminosity_sampler._auxiliary_sampler_name
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From 98babbc86b349701f0b246f5b31f66978cc308bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 10/27] fix: set inherited selection parameters of auxiliary
 samplers from a dictionary

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index fef05b1..b945d81 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -690,9 +690,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From 2f49e4d2ce6e4c62db8a0aa2e92d051928daf837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 11/27] fix: leave the dictionary passed to from_dict unchanged

---
 popsynth/population_synth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index b945d81..52b9e05 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1,4 +1,5 @@
 from abc import ABCMeta
+from copy import deepcopy
 from collections import OrderedDict
 from typing import Any, Dict, Optional, Union
 
@@ -347,6 +348,10 @@ class PopulationSynth(object, metaclass=ABCMeta):
         :rtype: :class:`PopulationSynth`
         """
 
+        # entries are removed from the dictionary below, so work on a copy
+
+        input = deepcopy(input)
+
         if "luminosity distribution" in input:
 
             # try:
-- 
2.43.0


From 7b1bc6c107cd522f9212e916fac5eca5ee838e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 12/27] fix: store the probability under the name it is read
 back from

---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..fcc3860 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
-- 
2.43.0


From 10be7ad50e8049f66781b783191231f925014c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 13/27] fix: read the graph of a population back as a directed
 graph

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fcc3860..5453c2a 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -792,7 +792,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From 97440056b2633fd7286ddae7d2b9e3f9dc27eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 14/27] fix: decode the name and forms of a population when
 reading it back

---
 popsynth/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 5453c2a..b871cb7 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -723,7 +723,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = f.attrs["lf_form"].decode()
 
             else:
 
@@ -739,9 +739,9 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
+        name = f.attrs["name"].decode()
 
-        spatial_form = str(f.attrs["spatial_form"])
+        spatial_form = f.attrs["spatial_form"].decode()
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
-- 
2.43.0


From 4360035d99de52e6de2e78a19e5edad9ebf5ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 15/27] fix: carry the known distances over to a sub-population
 by index, not by value

---
 popsynth/population.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index b871cb7..b729120 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -868,6 +868,17 @@ class Population(object):
 
             new_aux = None
 
+        # known distances are indexed by the position of an object
+        # amongst the detected ones
+
+        known = np.zeros(len(selection), dtype=bool)
+
+        if self._known_distance_idx is not None:
+
+            known[
+                np.flatnonzero(self._selection)[self._known_distance_idx]
+            ] = True
+
         itr = 0
         known_distances = []
         known_distance_idx = []
@@ -877,7 +888,7 @@ class Population(object):
 
             if s:
 
-                if i in self._known_distances:
+                if known[i]:
 
                     known_distances.append(self._distances[i])
                     known_distance_idx.append(itr)
@@ -900,8 +911,8 @@ class Population(object):
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
             known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distance_idx=np.array(known_distance_idx, dtype=int),
+            unknown_distance_idx=np.array(unknown_distance_idx, dtype=int),
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
-- 
2.43.0


From affe5d33e887bf3d12e3f9b82108adf30ba02811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 16/27] fix: keep the description of the synthesiser in a
 sub-population

---
 popsynth/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population.py b/popsynth/population.py
index b729120..7bc7ffa 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -931,6 +931,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From f7e4aac7751ae7bc5ca877f3af71168cddc5a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 17/27] fix: selections of selected and non-selected variables
 are boolean

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..4d5c9e7 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones(len(selected), dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros(len(non_selected), dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From 0fd9cf07f1e100efee505e05523d3a5d6a0ccd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 18/27] fix: know the normalization parameter before it is
 first used

---
 popsynth/distribution.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..379d68d 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -45,6 +45,16 @@ class Distribution(
         self._parameter_storage: Dict[str, float] = {}
         self._normalization_parameter: Optional[str] = None
 
+        # find the normalization amongst the parameters of the class
+
+        for cls in type(self).__mro__:
+
+            for k, v in cls.__dict__.items():
+
+                if isinstance(v, Parameter) and v.is_normalization:
+
+                    self._normalization_parameter = k
+
         self._seed = seed  # type: int
         self._name = name  # type: str
         self._form = form  # type: str
@@ -54,7 +64,7 @@ class Distribution(
     @property
     def normalization_parameter(self) -> Optional[float]:
 
-        return self._parameter_storage[self._normalization_parameter]
+        return getattr(self, self._normalization_parameter)
 
     @normalization_parameter.setter
     def normalization_parameter(self, value):
-- 
2.43.0


From f47f5b069c0b1d55d9ca5e10c6967310d6f7d38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 19/27] fix: sample the normalized density when its normalized
 envelope is used

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 379d68d..88cc1cb 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -379,7 +379,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From 2cd97656ffd3821b236c6d20b4ee65297d9b4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 20/27] fix: broken power laws with an index of -1

---
 popsynth/distributions/bpl_distribution.py | 48 ++++++++++++++--------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..0e96de0 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _integrate_piece(lo, hi, a):
+    """
+    Integral of x^a between lo and hi.
+    """
+
+    if a == -1:
+
+        return np.log(hi / lo)
+
+    return (np.power(hi, a + 1.0) - np.power(lo, a + 1.0)) / (a + 1)
+
+
+def _sample_piece(u, lo, hi, a):
+    """
+    Inverse transform sample x^a between lo and hi.
+    """
+
+    if a == -1:
+
+        return lo * np.power(hi / lo, u)
+
+    return np.power(
+        u * (np.power(hi, a + 1.0) - np.power(lo, a + 1.0))
+        + np.power(lo, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +105,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _integrate_piece(x0, x1, a1)
+    int_2 = np.power(x1, a1 - a2) * _integrate_piece(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -155,17 +179,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_piece(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_piece(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From ed2db4df3e561984104ce3f1481d3fee4e18af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 21/27] fix: polar and azimuthal angle of the spiral galaxy
 were swapped, its form lost

---
 popsynth/distributions/spiral_galaxy_distribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..54ee938 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -46,7 +46,7 @@ class SpiralGalaxyDistribution(SphericalDistribution):
         super(SpiralGalaxyDistribution, self).__init__(
             seed=seed,
             name=name,
-            form=form,
+            form=spatial_form if form is None else form,
         )
 
     def dNdV(self, r):
@@ -98,8 +98,8 @@ class SpiralGalaxyDistribution(SphericalDistribution):
             0, scale=0.07 * np.abs(self._distances), size=size
         )
 
-        phi = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
+        theta = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
 
-        self._theta = spiraltheta
+        self._theta = theta
 
-        self._phi = phi
+        self._phi = spiraltheta
-- 
2.43.0


From 13f3f2597d2c0384646704acbb090843c2ae90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 22/27] fix: DecSampler returned the polar angle and not the
 declination

---
 popsynth/aux_samplers/sky_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index dad7a11..71970ea 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -78,6 +78,6 @@ class DecSampler(NonObservedAuxSampler):
 
     def true_sampler(self, size):
 
-        self._true_values = np.arccos(
+        self._true_values = np.pi / 2 - np.arccos(
             1 - 2 * np.random.uniform(0.0, 1.0, size=size)
         )
-- 
2.43.0


From 28d189aaa083545c8e76bc10200d7e993fe53d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 23/27] fix: in-place operations on simulated variables wrote
 latent over observed values

---
 popsynth/simulated_variable.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 4d5c9e7..9c42990 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -164,12 +164,16 @@ class SimulatedVariable(np.ndarray):
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+        # the latent values must not be written over the observed ones
+
+        latent_kwargs = {k: v for k, v in kwargs.items() if k != 'out'}
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
         if results is NotImplemented:
             return NotImplemented
 
@@ -211,6 +215,10 @@ class SimulatedVariable(np.ndarray):
 
                 out = output
 
+                if isinstance(out, SimulatedVariable):
+
+                    out._latent_values = latent_result
+
             final_results.append(out)
 
         results = tuple(final_results)
-- 
2.43.0


From f0c796ca1452310e256f82c59e5cf07ca81cd225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 24/27] fix: restore the log levels after silencing the logs
 more than once

---
 popsynth/utils/logging.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..b2a9cc9 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -119,6 +119,11 @@ class LoggingState(object):
         self.popsynth_usr_log_handler = popsynth_usr_log_handler
         self.popsynth_console_log_handler = popsynth_console_log_handler
 
+        # once silenced, the levels from before the silencing are kept
+        # until they are restored
+
+        self._is_silenced: bool = False
+
         # store their current states
 
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
@@ -128,6 +133,10 @@ class LoggingState(object):
 
     def _store_state(self):
 
+        if self._is_silenced:
+
+            return
+
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -135,6 +144,8 @@ class LoggingState(object):
 
     def restore_last_state(self):
 
+        self._is_silenced = False
+
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
         )
@@ -147,6 +158,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._is_silenced = True
+
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
-- 
2.43.0


From f78c6075f75b77fa908659e648e9100f172933e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 25/27] fix: a population whose distribution has no form is
 read back without one

---
 popsynth/population.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 7bc7ffa..24b4e2a 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -599,15 +599,25 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = np.string_(self._lf_form)
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+        if self._name is not None:
+
+            f.attrs["name"] = np.string_(self._name)
+
+        # not every distribution has a form
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +733,14 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = f.attrs["lf_form"].decode()
+
+                if "lf_form" in f.attrs:
+
+                    lf_form = f.attrs["lf_form"].decode()
+
+                else:
+
+                    lf_form = None
 
             else:
 
@@ -739,9 +756,13 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"].decode()
+        name = f.attrs["name"].decode() if "name" in f.attrs else None
+
+        spatial_form = None
+
+        if "spatial_form" in f.attrs:
 
-        spatial_form = f.attrs["spatial_form"].decode()
+            spatial_form = f.attrs["spatial_form"].decode()
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
-- 
2.43.0


From e4d68d9752da40a5d3e92af64d0f958cdc1f3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 26/27] fix: refuse a luminosity source and a quantity of the
 same name

---
 popsynth/population_synth.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 52b9e05..4b0eccb 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -826,6 +826,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(auxiliary_sampler, DerivedLumAuxSampler):
 
+            if auxiliary_sampler.name in self._auxiliary_observations:
+
+                log.error(f"{auxiliary_sampler.name} is already registered!")
+
+                raise RuntimeError()
+
             log.info(
                 f"registering derived luminosity sampler: {auxiliary_sampler.name}"
             )
@@ -851,6 +857,16 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 raise RuntimeError()
 
+            if (
+                self._has_derived_luminosity
+                and auxiliary_sampler.name
+                == self._derived_luminosity_sampler.name
+            ):
+
+                log.error(f"{auxiliary_sampler.name} is already registered!")
+
+                raise RuntimeError()
+
             log.info(
                 "registering auxilary sampler: %s" % auxiliary_sampler.name
             )
-- 
2.43.0


From 91b2fde500f72e098d53c86ce7a3d57110a164a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 27/27] fix: keep the selection each auxiliary sampler made
 when they share a selector

---
 popsynth/auxiliary_sampler.py | 27 +++++++++++++++++++++++++--
 popsynth/population_synth.py  |  2 +-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 3b77ce5..832d345 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -1,4 +1,5 @@
 import abc
+from copy import copy
 from typing import Any, Dict, List, Optional
 
 import numpy as np
@@ -207,6 +208,7 @@ class AuxiliarySampler(
         self._has_secondary: bool = False
         self._is_sampled: bool = False
         self._selector: SelectionProbability = UnitySelection()
+        self._drawn_selector: Optional[SelectionProbability] = None
         self._uses_distance: bool = uses_distance
         self._uses_luminosity: bool = uses_luminosity
         self._uses_sky_position: bool = uses_sky_position
@@ -404,6 +406,11 @@ class AuxiliarySampler(
 
             self._apply_selection()
 
+            # the selector may be shared with other samplers, which will
+            # overwrite its selection, so keep this one
+
+            self._drawn_selector = copy(self._selector)
+
             self._probability = self._compute_probability()
 
     def _compute_probability(self) -> Optional[np.ndarray]:
@@ -432,6 +439,7 @@ class AuxiliarySampler(
             self._is_sampled = False
             self._obs_values = None  # type: ArrayLike
             self._true_values = None  # type: ArrayLike
+            self._drawn_selector = None
 
             self._selector.reset()
 
@@ -502,7 +510,7 @@ class AuxiliarySampler(
                 self._name,
                 self._true_values,
                 self._obs_values,
-                self._selector,
+                self.drawn_selector,
                 self.probability,
             )
         )
@@ -645,7 +653,22 @@ class AuxiliarySampler(
         :returns:
 
         """
-        return self._selector.selection
+        return self.drawn_selector.selection
+
+    @property
+    def drawn_selector(self) -> SelectionProbability:
+        """
+        The selector with the selection made on the values of this
+        sampler, or the selector itself before anything was drawn
+
+        :returns:
+
+        """
+        if self._drawn_selector is None:
+
+            return self._selector
+
+        return self._drawn_selector
 
     @property
     def selector(self) -> SelectionProbability:
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 4b0eccb..27c0e6b 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1141,7 +1141,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     self._derived_luminosity_sampler.name,
                     self._derived_luminosity_sampler.true_values,
                     self._derived_luminosity_sampler.obs_values,
-                    self._derived_luminosity_sampler.selector,
+                    self._derived_luminosity_sampler.drawn_selector,
                     self._derived_luminosity_sampler.probability,
                 )
             )
-- 
2.43.0

