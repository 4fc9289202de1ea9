From fe6b258aea965b23596be2289277c6df0f29734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 01/63] fix: report supplied input and mass unchanged and
 repeatably in kinematic Converter

---
 rsbeams/rsstats/kinematic.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..cf22f54 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -83,6 +83,9 @@ class Converter:
                     declaration += 1
             assert declaration == 1, "One and only one initial kinematic quantity must be provided"
 
+        # Values as supplied by the user, for the report
+        self.supplied = dict(self.args)
+
         # Convert to eV for internal use
         if self.args['input_unit'] == 'SI':
             self._unit_convert(input_unit='SI', input_dict=self.args)
@@ -121,7 +124,7 @@ class Converter:
             if self.args['mass']:
                 self.mass = self.args['mass'] * (
                             1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self.supplied['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
@@ -129,19 +132,23 @@ class Converter:
             if self.args['mass'] is not None:
                 self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
                             self.args['input_unit'] == 'eV'))
-                self.outputs["mass"] = self.args['mass']
+                self.outputs["mass"] = self.supplied['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev / ev_per_kg
+        self._initial_outputs = dict(self.outputs)
 
     def __call__(self, *args, silent=False, **kwargs):
         """Run kinematic conversion.
         silent (bool): If True then suppress printout and just return values in dict.
         """
+        # Every call starts from the same state
+        self.outputs = dict(self._initial_outputs)
+
         # Set beta and gamma based on the input value
         for key, value in self.args.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
+                self.outputs["input"] = self.supplied[key]
                 self.outputs["input_type"] = key
                 self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
 
@@ -179,6 +186,7 @@ class Converter:
         """
         if self.args['output_unit'] == 'SI':
             self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            self.outputs["mass"] = self._initial_outputs["mass"]  # reported in mass_unit
 
         if not silent:
             print(print_string.format(**self.outputs))
-- 
2.43.0


From 5f0322e630db995576e62b73de4b5e92fe21e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 02/63] fix: calc_variance6d no longer modifies the first
 particle

---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..71fabe3 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = array6D[:,0].copy()
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From bf25bcbf119b5195cbd85fe01baee5d3d5dd2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:40 +0000
Subject: [PATCH 03/63] fix: name the unsupported distribution type in the
 refusal of RsDistrib6D

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..7100ce2 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -27,7 +27,7 @@ class RsDistrib6D:
         if ( (distrib_type != 'uniform') and
              (distrib_type != 'gaussian') ):
             message = '\n\nERROR --'
-            message += '\n    distrib_type is specified as "' + self.distrib_type + '", which is not supported.'
+            message += '\n    distrib_type is specified as "' + distrib_type + '", which is not supported.'
             message += '\n    Only "uniform" and "gaussian" are allowed.'
             message += '\n'
             raise Exception(message)
-- 
2.43.0


From 1eb515e99653a3179d2c8aa67cb9e41914851d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 04/63] fix: sign of the rotation for alpha < 0 with beta equal
 to gamma in make_twiss_dist_6d

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 7100ce2..a69b58f 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if alphaII*gMinusB < 0.0 or (gMinusB == 0.0 and alphaII < 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From 70fecd8259746d540f0978f66854d892b73f1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 05/63] fix: contour levels of a field with one constant
 positive value

---
 rsbeams/rsplot/plot_ptcls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..bbd1f0e 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -135,7 +135,7 @@ def gen_contour_levels(field, nLevels=40, multiplier=1.1):
 
     max_e = multiplier * numpy.max(field)
     min_e = multiplier * numpy.min(field)
-    if abs(min_e) < max_e:
+    if abs(min_e) <= max_e:
         max_e = numpy.around(max_e, decimals=3)
         min_e = -max_e
     else:
-- 
2.43.0


From 5d57b0c4f55f04aa1be1becbf22bb3869d5d044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 06/63] fix: counter-clockwise phase advance of parallel
 vectors is zero

---
 rsbeams/rsptcls/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/phases.py b/rsbeams/rsptcls/phases.py
index 1075368..46228f9 100644
--- a/rsbeams/rsptcls/phases.py
+++ b/rsbeams/rsptcls/phases.py
@@ -56,7 +56,7 @@ def phase_advance(p1, p2, clockwise=True):
     else:
         advance = guess
         
-    if not clockwise:
+    if not clockwise and advance != 0:
         advance = 2*np.pi - advance
         
     return advance
-- 
2.43.0


From 6b0eadb99a5088ea3458da309262883bc87bdab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 07/63] fix: pass a single zero argument on to the sampled
 distribution

---
 rsbeams/rsstats/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..e5dfebf 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -39,9 +39,9 @@ def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) ->
 
     """
 
-    if args:
+    if args is not None:
         try:
-            args[0]
+            len(args)
         except TypeError:
             args = (args,)
         weights = distribution(grid, *args)
-- 
2.43.0


From 6661e8b0d7aa20283c7d634fb6c00c99866c92cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:07 +0000
Subject: [PATCH 08/63] fix: NonlinearInsert aperture setter stores the given
 value

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
-- 
2.43.0


From 205b5299279cd6c93be773c6848d541fefedc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 09/63] fix: betay setter of the bunch classes no longer
 replaces the betax property

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..ac91a49 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -124,7 +124,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
@@ -407,7 +407,7 @@ class NonlinearBunch(StandardBunch):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From 1c03e7a667a819f9b0e07d8105a1348daffffaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 10/63] fix: set_transverse_coordinates stores betay in betay

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index ac91a49..5cf85f0 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -170,7 +170,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
-- 
2.43.0


From 25a08a29d6d8b72aee1f96900dd43f5b3f39ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 11/63] fix: setting betax of a NonlinearBunch keeps gammay
 consistent with alphay

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 5cf85f0..29e349d 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -401,7 +401,7 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
-- 
2.43.0


From e512a4a610bb8bb0f755d1e9ba74974091b2f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 12/63] fix: NonlinearBunch cutoff setter tests the given value

---
 rsbeams/rsptcls/bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 29e349d..e0af2f9 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -383,7 +383,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
-- 
2.43.0


From 8e9e71274ce26614d10bcb6f35ffde5fd1f5f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 13/63] fix: NonlinearBunch accepts and uses the documented
 quiet option

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index e0af2f9..e4b637c 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -328,7 +328,7 @@ class NonlinearBunch(StandardBunch):
     """
 
     def __init__(self, npart, dist = 'KV', emitx = 1e-6, emity = 1e-6, betax=1., alphax = 0.,
-                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, queit=False, t = 0.1, c = 0.01, cutoff = 4):
+                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, quiet=False, t = 0.1, c = 0.01, cutoff = 4):
         """
 
         Args:
@@ -349,7 +349,7 @@ class NonlinearBunch(StandardBunch):
             cutoff (float): cutoff parameter for the nonlinear Gaussian distributoin, defaults to 4.
         """
 
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed)
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed, quiet)
 
         self._t = t
         self._c = c
-- 
2.43.0


From 51d92d757636e4cda996a7efa5f586c9801bc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 14/63] fix: quiet start keeps particles on the invariant shell
 when alpha is not zero

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index e4b637c..902191b 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -290,9 +290,9 @@ class StandardBunch(object):
     def exact_centroids(self, ptclCoords, phaseSpaceList):
         """Sets the centroid of the distribution in phase space to be zero - providing a quieter injection."""
 
-        translation1 = np.array([-1,1,-1,1])
+        translation1 = np.array([-1,-1,1,1])
         translation2 = np.array([-1,-1,-1,-1])
-        translation3 = np.array([1,-1,1,-1])
+        translation3 = np.array([1,1,-1,-1])
 
         ptcl1 = ptclCoords * translation1
         ptcl2 = ptclCoords * translation2
-- 
2.43.0


From 639367fce6849dfc1c1d26f57a3db4135c68373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 15/63] fix: generate_matrix puts the strengths and lengths of
 the elements into the matrices

---
 rsbeams/rslattice/Beamline.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..7438b46 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,6 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
+from numpy.lib import scimath
 from sympy import symbols, cosh, sinh, sqrt, lambdify
 from sympy.matrices import Matrix
 from ruamel import yaml
@@ -240,12 +241,16 @@ class StructuredBeamline(object):
             elements.append(self.matrices[ele.type])
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
+            # Parameter names are stored in lower case, the matrices use upper case
+            values = {}
             for key, val in ele.parameters.items():
                 if type(val) == str:
                     variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
-                else:
-                    elements[-1] = elements[-1].subs(key, val)
+                    val = variables[val]
+                values[symbols(key.upper())] = val
+            if ele.type == "quadrupole" and values.get(self.K1) == 0:
+                elements[-1] = self.matrices["drift"]
+            elements[-1] = elements[-1].subs(values, simultaneous=True)
 
         if concatenate:
             matrix = elements[-1]
@@ -254,7 +259,12 @@ class StructuredBeamline(object):
             elements = matrix
 
         if len(variables) > 0:
-            eval_matrix = lambdify([val for val in variables.values()], elements)
+            # the square root of a negative number appears in one plane of every quadrupole
+            eval_matrix = lambdify(
+                [val for val in variables.values()],
+                elements,
+                modules=[{"sqrt": scimath.sqrt}, "numpy"],
+            )
             return eval_matrix, elements
         else:
             return elements
-- 
2.43.0


From ee083d6199ba757354b76d03d88b953c6d857f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 16/63] fix: save and load beamlines with the current
 ruamel.yaml interface, keeping every sub-line apart

---
 rsbeams/rslattice/Beamline.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 7438b46..464e4ad 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -128,18 +128,14 @@ class StructuredBeamline(object):
 
         beamline = return_elements(self)
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            yaml.YAML().dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = yaml.YAML(typ="safe", pure=True).load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
@@ -154,8 +150,8 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    beamline.add_beamline(name=f"{beamline.name}_{len(beamline.lines)}")
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From 034885071ea833041486e618e0353df6d85def70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 17/63] fix: read_elegant failed on files with a single
 particle

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..2821d81 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = read_particle_data.columns.reshape(-1)
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-- 
2.43.0


From fd0d39d31bfbbec6b8d1552244f3275d887a79e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 18/63] fix: read_elegant ignored a charge given as fixed value

---
 rsbeams/rsdata/switchyard.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 2821d81..378b900 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -32,8 +32,12 @@ def read_elegant(file_name: str) -> Species:
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except ValueError:
-        print(f"No Charge in file {file_name}")
-        charge_data = 0.0
+        try:
+            # Charge may be stated in the header as a fixed value
+            charge_data = read_particle_data.parameter_fixed_value('Charge')
+        except KeyError:
+            print(f"No Charge in file {file_name}")
+            charge_data = 0.0
 
     particle_data = np.zeros([sdds_data.size, 6])
     for i, col in enumerate(['x', 'xp', 'y', 'yp', 't', 'p']):
-- 
2.43.0


From d073dae8143e0a707ed1c777096423bef94b0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 19/63] fix: read_opal read the last step when step 0 was asked
 for

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 378b900..01e8274 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -73,7 +73,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
-- 
2.43.0


From 17d9e27a6a7ad0fc41a8368f2954443fc928b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 20/63] fix: read_opal refused steps with a total charge of
 zero

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 01e8274..ed14b66 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -90,7 +90,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From cb2690a8f9d7f4d5dc96c4435f942f6df310f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 21/63] fix: parse_json doubled repeated lines and did not
 reverse nested lines

---
 .../rslattice/templates/lattice_importer.py   | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..8a77ea5 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -74,19 +74,21 @@ def parse_json(sirepo_json, beamline):
     def generate_beamline(items, beamline, definition):
         for item in items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
+                line = beamline_definitions[abs(item)]
+                line_items = line["items"]
+                line_name = line["name"]
+                if item < 0:
+                    # Reversed line: sub-lines are reversed as well
+                    line_name = "-" + line_name
+                    line_items = [
+                        -i if abs(i) in beamline_definitions.keys() else i
+                        for i in line_items[::-1]
+                    ]
+                is_new_line = line_name not in beamline.lines
+                beamline.add_beamline(line_name)
+                if is_new_line:
                     generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
+                        line_items, beamline.lines[line_name], definition
                     )
             else:
                 element = element_defitions[item]
-- 
2.43.0


From dba241ebbfb8d03eb0cdf68b829ad2848903a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 22/63] fix: lte files that end with a comment line could not
 be parsed

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..c04a1a7 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -283,6 +283,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From f94e1582c81d5a7ff385783221f82cf28554dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 23/63] fix: lte element types without parameters lost a
 character, text values kept blanks and newlines

---
 rsbeams/rslattice/lte_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index c04a1a7..43e2377 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -239,6 +239,8 @@ class BeamlineParser(object):
 
         type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
@@ -252,14 +254,14 @@ class BeamlineParser(object):
 
             try:
                 element_parameters[key] = parse_rpn(beamline_string[2])
-            except ValueError:
+            except (ValueError, IndexError):
                 beamline_string = beamline_string[2].partition(',')
                 try:
                     element_parameters[key] = parse_rpn(beamline_string[0])
-                except ValueError:
+                except (ValueError, IndexError):
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
-                    element_parameters[key] = beamline_string[0]
+                    element_parameters[key] = beamline_string[0].strip()
 
             beamline_string = beamline_string[2]
 
-- 
2.43.0


From 67ec0b6950cb130515715b015c0dc98ac9b1453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 24/63] fix: lte definitions with blanks or quoted line names
 were not found

---
 rsbeams/rslattice/lte_parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 43e2377..bc4e423 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -72,7 +72,7 @@ class BeamlineParser(object):
         :param beamline_name:
         :return:
         """
-        self.beamline_name = beamline_name
+        self.beamline_name = beamline_name.lower()
 
     def find_beamlines(self):
         """
@@ -83,14 +83,14 @@ class BeamlineParser(object):
             return "Set Beamline"
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
-            if self.lattice_definition[linenumber].find('line=(') > -1:
+            # Blanks have no meaning in beamline definitions
+            if ':line=(' in ''.join(self.lattice_definition[linenumber].split()):
                 def_start = self.lattice_definition[linenumber].find('=') + 1
                 self.lines[self._read_name(self.lattice_definition[linenumber])] = \
-                    self.lattice_definition[linenumber][def_start:]
+                    ''.join(self.lattice_definition[linenumber][def_start:].split()).replace('"', '')
 
                 if self._read_name(self.lattice_definition[linenumber]) == self.beamline_name:
-                    def_start = self.lattice_definition[linenumber].find('=') + 1
-                    self.beamline_string = self.lattice_definition[linenumber][def_start:]
+                    self.beamline_string = self.lines[self.beamline_name]
 
                 self.lattice_definition.pop(linenumber)
 
@@ -168,7 +168,7 @@ class BeamlineParser(object):
             for line in self.lattice_definition:
                 line = line.replace('"', '')
                 line = line.replace('\'', '')
-                if line.lstrip().find('{}:'.format(element_name)) == 0:
+                if self._read_name(line) == element_name:
                     element_definition = line
 
             # Add element to appropriate StructuredBeamline
@@ -326,7 +326,7 @@ class BeamlineParser(object):
         if end < 0:
             return -1
 
-        return line[0:end].strip('"')
+        return line[0:end].strip().strip('"')
 
 
 def parse_rpn(expression):
-- 
2.43.0


From 2d62a6a8cabe4ab385a91ed256dcbea235ec4377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 25/63] fix: stored rpn variables were replaced inside other
 names and could not use each other

---
 rsbeams/rslattice/lte_parser.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index bc4e423..53fabbe 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -54,7 +54,7 @@ class BeamlineParser(object):
             print("File could not be read")
 
         self._sanitize_lattice_definition()
-        self._replace_stored_variables()
+        self._store_variables()
 
     def __call__(self):
         """
@@ -253,11 +253,11 @@ class BeamlineParser(object):
             key = beamline_string[0].strip()
 
             try:
-                element_parameters[key] = parse_rpn(beamline_string[2])
+                element_parameters[key] = parse_rpn(beamline_string[2], self.rpn_variables)
             except (ValueError, IndexError):
                 beamline_string = beamline_string[2].partition(',')
                 try:
-                    element_parameters[key] = parse_rpn(beamline_string[0])
+                    element_parameters[key] = parse_rpn(beamline_string[0], self.rpn_variables)
                 except (ValueError, IndexError):
                     # TODO: This allows setting of non-numeric parameters (which do occur),
                     # TODO: but also could allow improperly parsed numbers to be added as a string with no warning.
@@ -275,7 +275,6 @@ class BeamlineParser(object):
         Performs:
         Remove commented and empty lines from lte file
         Concatenate lines ending in continuation character to their start
-        store rpn variables
         """
 
         for linenumber in range(len(self.lattice_definition) - 1, -1, -1):
@@ -305,20 +304,15 @@ class BeamlineParser(object):
                 print("Line continuation concatenation may have failed.")
                 raise
 
-            if self.lattice_definition[linenumber].lstrip()[0] == '%':
-                variable = self.lattice_definition[linenumber].split()
-                self.rpn_variables['{}'.format(variable[-1])] = parse_rpn(' '.join(variable[1:-2]))
-
-    def _replace_stored_variables(self):
+    def _store_variables(self):
         """
-        Replace any variables stored in rpn_variable with their calculated value.
+        Store rpn variables in the order of their definition, they may use variables stored before.
         """
 
-        for linenumber in range(len(self.lattice_definition)):
-            for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
-                    self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+        for line in self.lattice_definition:
+            if line.lstrip()[0] == '%':
+                variable = line.lstrip()[1:].split()
+                self.rpn_variables[variable[-1]] = parse_rpn(' '.join(variable[:-2]), self.rpn_variables)
 
     def _read_name(self, line):
         end = line.find(':')
@@ -329,13 +323,14 @@ class BeamlineParser(object):
         return line[0:end].strip().strip('"')
 
 
-def parse_rpn(expression):
+def parse_rpn(expression, variables=None):
     # TODO: Common expression: atan, pi, sqr,
     # See http://www.aps.anl.gov/Accelerator_Systems_Division/Accelerator_Operations_Physics/manuals/SDDStoolkit-6/node99.html
     # For additional capabilities that may need to be added
     """
     RPN Calculator
     :param expression:
+    :param variables: (dict) Values of stored variables
     :return:
     """
 
@@ -345,8 +340,11 @@ def parse_rpn(expression):
         # Sanitize string
         val = val.replace('"', '')
         val = val.replace('\'', '')
-        val = val.replace('pi', str(np.pi))
         val = val.strip()
+        if variables and val in variables:
+            stack.append(variables[val])
+            continue
+        val = val.replace('pi', str(np.pi))
         # TODO: use a dictionary to hold operators and their code operation to get rid of this
         if val in ['-', '+', '*', '/', 'mult']:
             token1 = stack.pop()
-- 
2.43.0


From e0ba94e97c2c5cb8c109c912cae282b76ebd5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 26/63] fix: repetition of nested groups in lte lines ended at
 the first bracket

---
 rsbeams/rslattice/lte_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 53fabbe..ca5abfb 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -206,7 +206,14 @@ class BeamlineParser(object):
         # Case 1: Starts with (
         if beamline_string[0] == '(':
             beamline_string = beamline_string[1:]  # Consume '('
-            subline_end = beamline_string.find(')')
+            subline_end, depth = 0, 1
+            while depth:
+                if beamline_string[subline_end] == '(':
+                    depth += 1
+                elif beamline_string[subline_end] == ')':
+                    depth -= 1
+                subline_end += 1
+            subline_end -= 1
 
             for _ in range(coefficient):
                 subline += beamline_string[:subline_end]
-- 
2.43.0


From c447de6d8dd6998310c6b7d03d394b9ab7606e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 27/63] fix: lines used more than once in an lte file doubled
 their elements, nested lines were cut short

---
 rsbeams/rslattice/lte_parser.py | 52 ++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index ca5abfb..4df8b74 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -105,7 +105,7 @@ class BeamlineParser(object):
         beamline_string = self.beamline_string[1:]  # Consume opening '('
         coefficient = ''
         lines_list = []  # Holds beamline definitions if recursion is necessary
-        flag_subline = False  # Set if recursion begins
+        line = self.beamline  # Beamline that elements are added to
 
         """
         Order of operations for parsing:
@@ -149,14 +149,27 @@ class BeamlineParser(object):
                 elif beamline_string.find(')') > -1:
                     beamline_string = beamline_string[
                                       beamline_string.find(')') + 1:]  # Consume element name and ')'
-                if beamline_string.strip():
-                    lines_list.append(beamline_string)
-
-                # Set beamline_string to be new beamline
-                beamline_string = self.lines[element_name]
-                beamline_string = beamline_string[1:]  # Consume opening '('
-                self.beamline.add_beamline(name=element_name)
-                flag_subline = True
+                # Catch dangling bracket
+                if beamline_string.rstrip() == ')':
+                    beamline_string = ''
+
+                if element_name in self.beamline.lines:
+                    # Contents are complete already, insert the line once more
+                    line.sequence.append(self.beamline.lines[element_name])
+                else:
+                    lines_list.append((beamline_string, line))
+
+                    # Set beamline_string to be new beamline
+                    beamline_string = self.lines[element_name]
+                    beamline_string = beamline_string[1:]  # Consume opening '('
+                    line.add_beamline(name=element_name)
+                    line = line.sequence[-1]
+                    line.elements = self.beamline.elements  # Elements are shared by all lines
+                    self.beamline.lines[element_name] = line
+
+                # Move up in recursion
+                while not beamline_string.strip() and lines_list:
+                    beamline_string, line = lines_list.pop()
                 continue
 
             # Strip out quotations in case someone wasn't consistent about using them around the element name...
@@ -165,11 +178,11 @@ class BeamlineParser(object):
 
             # Find definition of element in lattice definition file
             element_definition = None
-            for line in self.lattice_definition:
-                line = line.replace('"', '')
-                line = line.replace('\'', '')
-                if self._read_name(line) == element_name:
-                    element_definition = line
+            for definition in self.lattice_definition:
+                definition = definition.replace('"', '')
+                definition = definition.replace('\'', '')
+                if self._read_name(definition) == element_name:
+                    element_definition = definition
 
             # Add element to appropriate StructuredBeamline
             try:
@@ -178,19 +191,16 @@ class BeamlineParser(object):
                 print("\n\nElement Definition for {} not found".format(repr(element_name)))
                 raise
 
-            self.beamline.add_element(element_name, element_type, element_parameters, subline=flag_subline)
+            line.add_element(element_name, element_type, element_parameters)
             beamline_string = beamline_string[next_element_end + 1:]  # Consume element name
 
             # Catch dangling bracket
             if beamline_string.rstrip() == ')':
                 beamline_string = ''
 
-            # Move up 1 level in recursion
-            if not beamline_string.strip():
-                if len(lines_list) != 0:
-                    beamline_string = lines_list[-1]
-                    lines_list.pop()
-                    flag_subline = False
+            # Move up in recursion
+            while not beamline_string.strip() and lines_list:
+                beamline_string, line = lines_list.pop()
 
     def _expand_line(self, beamline_string, coefficient):
         """
-- 
2.43.0


From 6fa5dcdab7bbc04725817d3b7fb9996d9faa7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 28/63] fix: repeated groups that start with a repetition
 failed in lte lines

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 4df8b74..76f2b38 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -134,6 +134,7 @@ class BeamlineParser(object):
             if coefficient:
                 beamline_string = self._expand_line(beamline_string, int(coefficient))
                 coefficient = ''
+                continue
             if beamline_string.find(',') > -1:
                 next_element_end = beamline_string.find(',')
             elif beamline_string.find(')') > -1:
-- 
2.43.0


From aa8f24bc2484772a5b7ed77abe08ff9edf947e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 29/63] fix: sextupole strengths were multiplied with the
 square of the rigidity

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..ac875a1 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -18,7 +18,7 @@ def _get_gradient(k1, energy, mass, n=1):
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho  # The rigidity enters once for every order n
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
-- 
2.43.0


From 75f17e884afbbab05877ce582619d1d1b320cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 30/63] fix: elegant_to_warp used the central momentum as
 reference energy

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index ac875a1..c749871 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From 3a32bc79988cbf2afdd0e5ee96d5915702a0cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 31/63] fix: some bend and sextupole types were left without
 converted strength

---
 rsbeams/pkcli/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index c749871..f90815b 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -26,9 +26,9 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
     for ele in beamline.get_beamline_elements():
         if ele.type == 'kquad' or ele.type == 'quad':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k1']), energy, mass)
-        elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
+        elif ele.type in ('csbend', 'sben', 'csrcsbend', 'ksbend', 'nibend', 'rben', 'tubend'):
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
-        elif ele.type == 'sext':
+        elif ele.type == 'ksext' or ele.type == 'sext':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
 
 # Public Functions
-- 
2.43.0


From 1acfab38e95dda64760307c9931056e2d45c356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 32/63] fix: a second file written by a WarpWriter had no
 element definitions

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..c568269 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -56,6 +56,7 @@ class WarpWriter:
 
     def write_file(self, filename):
         contents = "import warp as wp\n"
+        self.element_names = []
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
         
-- 
2.43.0


From 5a706d7c7eadadadff026ab188d48fcb7c405124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 33/63] fix: Trace3D decks that end with a comment line could
 not be parsed

---
 rsbeams/rslattice/trace3d_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..db61344 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From d8a6ee22b5912401afd77b9acb89afe1b78cad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 34/63] fix: Trace3D parser had no table of handlers

---
 rsbeams/rslattice/trace3d_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index db61344..128ce09 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -121,6 +121,8 @@ class Trace3d(BeamlineParser):
 
     }
 
+    handlers = {}  # No element needs special handling
+
     def __init__(self, filename, beamline_name):
         super(Trace3d, self).__init__(filename, beamline_name)
         self.comment_character = ';'
-- 
2.43.0


From f19af90aa9be42476d87256f2fcded3091009602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 35/63] fix: the last element of Trace3D decks was dropped

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 128ce09..dfd860e 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -187,7 +187,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
-- 
2.43.0


From d7fb3497274b03af4206523dfef46d9316c642bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 36/63] fix: Trace3D parser lost the sign of numbers without
 decimals and the exponent of all numbers

---
 rsbeams/rslattice/trace3d_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index dfd860e..27af4a6 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -153,7 +153,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?", line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From 3c4fbd9e294dc87d43b8e45f13d56ef59643816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 37/63] fix: SDDS header fields with blanks around the equal
 sign, without blanks between them or with a quoted comma at the end were
 misread

---
 rsbeams/rsdata/datatypes.py | 11 ++++-------
 rsbeams/rsdata/utils.py     | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..24f5ce2 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -6,7 +6,7 @@
 
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
-from .utils import data_types, _shlex_split
+from .utils import data_types, _namelist_fields
 import numpy as np
 
 
@@ -17,12 +17,9 @@ class Datum:
         self.parse_namelist()
 
     def parse_namelist(self):
-        namelist = _shlex_split(self.namelist)
-        for name in self.fields.keys():
-            for entry in namelist:
-                if name in entry[: len(name)]:
-                    start = entry.find("=")
-                    self.fields[name] = entry[start + 1 :].rstrip(",")
+        for name, value in _namelist_fields(self.namelist):
+            if name in self.fields:
+                self.fields[name] = value
 
     def set_data_type(self):
         data_type = self.fields["type"]
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..3aaaf39 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -1,4 +1,4 @@
-import shlex
+import re
 import numpy as np
 # TODO: Find sdds use case with 'short' type
 # SDDS defaults to 32 bit unsigned longs on all test systems while numpy uses 64 bits for the np.int_ in test cases
@@ -6,6 +6,10 @@ import numpy as np
 data_types = {'double': np.float64, 'short': np.int16, 'long': np.int32, 'string': 'S{}', 'char': np.char,
               'float': np.float32}
 
+# name=value where the value is quoted or ends at a comma or blank
+_FIELD = re.compile(r'(\w+)\s*=\s*(?:"([^"\\]*(?:\\.[^"\\]*)*)"|([^\s,]*))', re.DOTALL)
+_ESCAPED = re.compile(r'\\(["\\])')
+
 
 def _return_type(string):
     target = 'type='
@@ -25,15 +29,17 @@ def _read_line(open_file):
     return line
 
 
-def _shlex_split(line):
-    # Cannot just use shlex.split
-    # Need to ignore single-quotes due to their use as common characters in accelerator notation
-    lex = shlex.shlex(line, posix=True)
-    lex.quotes = '"'
-    lex.whitespace_split = True
-    lex.commenters = ''
+def _namelist_fields(namelist):
+    # Double quotes delimit values. Single-quotes are common characters in accelerator notation.
+    fields = []
+    for match in _FIELD.finditer(namelist):
+        name, quoted, plain = match.groups()
+        if quoted is None:
+            fields.append((name, plain))
+        else:
+            fields.append((name, _ESCAPED.sub(r'\1', quoted)))
 
-    return list(lex)
+    return fields
 
 
 def iter_always():
-- 
2.43.0


From 72c64ee3322bd37c2a62b62aba2bf19b53b2fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 38/63] fix: SDDS field_length and no_row_counts were kept as
 text

---
 rsbeams/rsdata/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index 24f5ce2..fffc2ab 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -19,6 +19,8 @@ class Datum:
     def parse_namelist(self):
         for name, value in _namelist_fields(self.namelist):
             if name in self.fields:
+                if type(self.fields[name]) is int:
+                    value = int(value)
                 self.fields[name] = value
 
     def set_data_type(self):
-- 
2.43.0


From 91d268715457fd203cfbef2651c448d183a8e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 39/63] fix: SDDS fixed values of type float were not
 converted, unsupported types were accepted

---
 rsbeams/rsdata/datatypes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index fffc2ab..86bd239 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -45,11 +45,10 @@ class Parameter(Datum):
             "fixed_value": None,
         }
         super().__init__(namelist)
+        self.set_data_type()
 
         if self.fields["fixed_value"] is not None:
             self.parse_fixed_value()
-        else:
-            self.set_data_type()
 
     def parse_fixed_value(self):
         fixed_value = self.fields["fixed_value"]
@@ -57,7 +56,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["double", "float"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
-- 
2.43.0


From 4f9aa5be5db7d9f42e1f244f1d327bc990e77ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 40/63] fix: reading an SDDS header that is not complete did
 not end

---
 rsbeams/rsdata/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 3aaaf39..b1a06d5 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -24,8 +24,10 @@ def _return_type(string):
 
 def _read_line(open_file):
     line = ''
-    while line == '\n' or line == '' or line[0] == '!':
+    while line.strip() == '' or line.lstrip()[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if line == '':
+            raise Exception("Header cannot be read")
     return line
 
 
-- 
2.43.0


From 234f3cae56ff66afedfeea36e9ad82e8e7fcbb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 41/63] fix: SDDS1 is only an identification at the start of
 the line, the data entry may be indented

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..0e04f79 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -111,7 +111,7 @@ class readSDDS:
         """
         Read in ASCII data of the header to string and organize.
         """
-        if utils._read_line(self.openf).find('SDDS1') < 0:
+        if not utils._read_line(self.openf).startswith('SDDS1'):
             # First line must identify as SDDS file
             raise Exception("Header cannot be read")
         # TODO: Need a catch for &include here to at least one level of nesting
@@ -132,7 +132,7 @@ class readSDDS:
                     namelist.append(new_line)
                     self._header_line_count += 1
                 self.header.append(''.join(namelist))
-            elif new_line.find('&data') == 0:
+            elif new_line.lstrip().startswith('&data'):
                 # Final entry in the header is always &data
                 namelist.append(new_line)
                 while '&end' not in new_line:
-- 
2.43.0


From 87038b2faae658e4df9686708cc143d400ca47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 42/63] fix: ascii SDDS files whose parameters are all fixed
 and that have no columns could not be read

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0e04f79..85c42ec 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -248,7 +248,7 @@ class readSDDS:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
         else:
-            if len(self._parameter_keys[0]) == 0:
+            if len(self._parameter_keys) > 0 and len(self._parameter_keys[0]) == 0:
                 # Need empty checks to succeed
                 self._parameter_keys.pop(0)
 
-- 
2.43.0


From c8e8b2b6600f9b6fe4dca99c8fd82e21081a7356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 43/63] fix: blank lines and comments in the header of ascii
 SDDS files shifted the data

---
 rsbeams/rsdata/SDDS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 85c42ec..5b5320c 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -174,7 +174,10 @@ class readSDDS:
             self._data_mode = 'ascii'
             # need list of lines to use genfromtxt
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                # the list starts after the header
+                self.openf = [line for line in self.openf[self.header_end_pointer:].splitlines()
+                              if line.lstrip().find(b'!') != 0]
+                self._header_line_count = 0
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
-- 
2.43.0


From 3cd7ed22b10c050022642dedba818905e6cf7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 44/63] fix: string columns with a field_length were misread
 from binary SDDS files

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 5b5320c..27d3e9b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -206,10 +206,10 @@ class readSDDS:
                 if self._data_mode == 'binary':
                     self._column_keys[-1].append(('record_length', np.int32))
                     self._column_keys.append([])
-                    if col.fields['field_length'] == 0:
-                        self._variable_length_records = True
+                    # field_length is for ascii only, binary strings always carry their length
+                    self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
-                                                  col.type_key.format('{}')))
+                                                  utils.data_types['string']))
                 else:
                     self._column_keys[-1].append((col.fields['name'],
                                                   col.type_key.format(self.max_string_length)))
-- 
2.43.0


From d83ae19a8c15a381f1dac422a77e410119b840f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 45/63] fix: the end of SDDS files was not recognized or found
 too early

---
 rsbeams/rsdata/SDDS.py | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 27d3e9b..9e1eee9 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -286,34 +286,31 @@ class readSDDS:
 
     def _check_file_end(self, position):
         if self.buffer:
-            if len(self.openf) <= position:
-                return True
-        else:
-            # Usually will catch binary end
-            pointer = self.openf.tell()
+            if self._data_mode == 'ascii':
+                return not any(line.strip() for line in self.openf[position:])
+            return len(self.openf) <= position
 
-            if not self.openf.read(1):
-                return True
-            while True:
+        pointer = self.openf.tell()
+        line = self.openf.read(1)
+        if self._data_mode == 'ascii':
+            # Blank lines and comments may follow the last page
+            line += self.openf.readline()
+            while line and (not line.strip() or line.lstrip()[:1] == b'!'):
                 line = self.openf.readline()
-                if not line.strip():
-                    return True
-                else:
-                    break
-
-            self.openf.seek(pointer)
+        self.openf.seek(pointer)
 
-        return False
+        return not line
 
     def _get_ascii_row_count(self, start_position):
         line_count = 0
         if self.buffer:
             # openf is a list
             for line in self.openf[start_position:]:
-                if not line:
+                if not line.strip():
                     return line_count
                 else:
                     line_count += 1
+            return line_count
         else:
             start_position = self.openf.tell()
             while True:
@@ -321,7 +318,7 @@ class readSDDS:
                 if not line.strip():
                     self.openf.seek(start_position)
                     return line_count
-                else:
+                elif line.lstrip()[:1] != b'!':
                     line_count += 1
 
     def read(self, pages=None):
-- 
2.43.0


From e94325416d892abb7b0aea6a51ccdbd2b3079c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 46/63] fix: selecting pages of SDDS files returned wrong
 pages, pages without rows were dropped

---
 rsbeams/rsdata/SDDS.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 9e1eee9..0877c72 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -2,7 +2,6 @@ from future.builtins import str
 import numpy as np
 from struct import pack
 from sys import byteorder
-from types import GeneratorType
 from rsbeams.rsdata import utils
 from .datatypes import supported_namelists
 from .struct_data import StructData
@@ -343,9 +342,9 @@ class readSDDS:
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
         if pages is not None:
-            user_pages = pages
+            user_pages = set(pages)
         else:
-            user_pages = utils.iter_always()
+            user_pages = None
         pages = utils.iter_always()
 
         # Buffer reading has no pointer, you always start at the beginning so we need to move the start offset
@@ -361,23 +360,23 @@ class readSDDS:
                 break
 
         for page in pages:
-            if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
-                print(page, user_pages)
+            if user_pages is not None and page > max(user_pages, default=-1):
                 if self.verbose:
                     print('stopping here')
                 break
 
             if self._check_file_end(position):
                 # TODO: Get the logic right here. Should not trigger unless user requests a bad page.
-                if page in user_pages:
+                if user_pages is not None:
                     if self.verbose:
                         print('Could not read page {}'.format(page))
                 break
 
+            save_page = user_pages is None or page in user_pages
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            if self._parameters and save_page:
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
@@ -387,14 +386,15 @@ class readSDDS:
             else:
                 row_count = self._get_ascii_row_count(position)
 
-            if row_count == 0:
+            if not self._columns:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
+            if row_count == 0:
+                column_data = [[np.empty(0, dtype=self._columns.data_type)]]
+            else:
+                # columns of pages that are not stored must still be passed
                 column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if save_page:
                 self._columns.add(column_data)
-            else:
-                # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
         if self._parameters:
             self._parameters.concat()
         if self._columns:
@@ -455,7 +455,7 @@ class readSDDS:
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
                                                comments='!', deletechars='')
                 if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
+                    position += row_count
             else:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
                 if self.buffer:
-- 
2.43.0


From bae0f846b51612a565fed427c51aa76ea0aa1ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 47/63] fix: SDDS files with different row counts on their
 pages could not be read

---
 rsbeams/rsdata/struct_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..2bdd5a5 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -42,7 +42,13 @@ class StructData:
         self._data.append(data_hold)
 
     def concat(self):
-        self.data = np.array(self._data)
+        if len({np.shape(d) for d in self._data}) > 1:
+            # pages with different row counts
+            self.data = np.empty(len(self._data), dtype=object)
+            for i, d in enumerate(self._data):
+                self.data[i] = d
+        else:
+            self.data = np.array(self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-- 
2.43.0


From 1cd69c83f9b9f7577fff6c2996183b2fc84b7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 48/63] fix: parameters, columns or arrays of SDDS files
 without any raised

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 0877c72..7702bc3 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -84,7 +84,7 @@ class readSDDS:
 
     @property
     def parameters(self):
-        return self._parameters.data
+        return self._parameters.data if self._parameters else None
 
     @parameters.setter
     def parameters(self, parameters):
@@ -92,7 +92,7 @@ class readSDDS:
 
     @property
     def columns(self):
-        return self._columns.data
+        return self._columns.data if self._columns else None
 
     @columns.setter
     def columns(self, columns):
@@ -100,7 +100,7 @@ class readSDDS:
 
     @property
     def arrays(self):
-        return self._arrays.data
+        return self._arrays.data if self._arrays else None
 
     @arrays.setter
     def arrays(self, arrays):
-- 
2.43.0


From aff7ad4cf1e25fb21e07b361ff8ea13398c10f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 49/63] fix: empty strings in binary SDDS files could not be
 read

---
 rsbeams/rsdata/SDDS.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 7702bc3..25e6a4e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -400,6 +400,12 @@ class readSDDS:
         if self._columns:
             self._columns.concat()
 
+    def _get_record(self, dtype, position):
+        if np.dtype(dtype).itemsize == 0:
+            # NumPy cannot read an empty string
+            return np.zeros(1, dtype=dtype)
+        return self._get_reader()(self.openf, dtype=dtype, count=1, offset=position)
+
     def _get_parameter_data(self, data_keys, position):
         data_arrays = [[]]
         for dk in data_keys:
@@ -415,7 +421,7 @@ class readSDDS:
                 if self.buffer:
                     position += 1
             else:
-                new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
+                new_array = self._get_record(dk, position)
                 if self.buffer:
                     position += np.dtype(dk).itemsize
             data_arrays[-1].append(new_array)
@@ -443,7 +449,7 @@ class readSDDS:
                         if self.buffer:
                             position += 1
                     else:
-                        new_array = self._get_reader()(self.openf, dtype=dk, count=1, offset=position)
+                        new_array = self._get_record(dk, position)
                         if self.buffer:
                             position += np.dtype(dk).itemsize
                     data_arrays[-1].append(new_array)
-- 
2.43.0


From 8e70e93568c3e0d9e7f3105c06cd8121dfb5db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 50/63] fix: pages of ascii SDDS files without row counts were
 not separated

---
 rsbeams/rsdata/SDDS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 25e6a4e..564d63f 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -393,6 +393,12 @@ class readSDDS:
             else:
                 # columns of pages that are not stored must still be passed
                 column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if self._data_mode == 'ascii' and self.data['&data'][0].fields['no_row_counts']:
+                # the page ends with a blank line
+                if self.buffer:
+                    position += 1
+                else:
+                    self.openf.readline()
             if save_page:
                 self._columns.add(column_data)
         if self._parameters:
-- 
2.43.0


From aa816bcbd0690961f325795cef23126d4da2d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 51/63] fix: parameters of type short could not be written to
 binary SDDS files

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 564d63f..d4f2712 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -541,7 +541,7 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
-- 
2.43.0


From 5ce005a74d50fcc5e52f27fb6b224879505d2038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 52/63] fix: SDDS columns were not written in their types,
 unequal lengths left an empty file

---
 rsbeams/rsdata/SDDS.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index d4f2712..6645e6c 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -673,19 +673,19 @@ class writeSDDS:
         """
 
         self.dataMode = dataMode
-        outputFile = open(fileName, 'wb')
 
         # Verify Column Data Integrity
-        if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
-                print('ERROR: All columns on a page must have same length')
-                return
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
-        else:
-            column_data = np.empty([0])
+        columns = [np.ravel(column['colData']) for column in self.columns]
+        row_count = len(columns[0]) if columns else 0
+        if any(len(column) != row_count for column in columns):
+            raise ValueError('All columns on a page must have same length')
+        # Every column is written in its own type
+        column_data = np.empty(row_count, dtype=[('column{}'.format(i), self.key_indentity[column['colType']])
+                                                 for i, column in enumerate(self.columns)])
+        for name, column in zip(column_data.dtype.names or (), columns):
+            column_data[name] = column
+
+        outputFile = open(fileName, 'wb')
 
         # Begin header writeout
         self._write_header(outputFile)
@@ -693,7 +693,7 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'binary':
             # Row count precedes parameter entries in a binary file
-            outputFile.write(pack('I', column_data.shape[0]))
+            outputFile.write(pack('I', row_count))
 
         # Write Parameters
         for parameter in self.parameters:
@@ -709,12 +709,14 @@ class writeSDDS:
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
             # Should not appear in ascii if 0
-            if column_data.shape[0]:
-                outputFile.write('{}\n'.format(column_data.shape[0]).encode())
+            if row_count:
+                outputFile.write('{}\n'.format(row_count).encode())
 
         # Write Columns
         if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
+            if self.columns:
+                np.savetxt(outputFile, column_data, fmt=['%.18e' if column['colType'] == 'double' else '%d'
+                                                         for column in self.columns])
         elif self.dataMode == 'binary':
             column_data.tofile(outputFile)
             # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-- 
2.43.0


From 88484cbd0b73f6a6cd2ebf1ad76c3e774b9e3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 53/63] fix: ascii SDDS files with columns but no rows were
 written without a row count

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 6645e6c..b6e4281 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -708,8 +708,8 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if row_count:
+            # Should not appear in ascii if there are no columns
+            if self.columns:
                 outputFile.write('{}\n'.format(row_count).encode())
 
         # Write Columns
-- 
2.43.0


From d10de677a739ff389b94980b4f0db4a011f9a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 54/63] fix: fixed values of 0 were not written to SDDS files,
 which shifted the data

---
 rsbeams/rsdata/SDDS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index b6e4281..dae3a8f 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -620,7 +620,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -641,7 +641,8 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                # a fixed value may be 0
+                if key in parameterAttributeStr.keys() and (value or key == 'parFixedVal' and value is not None):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
-- 
2.43.0


From e78431e61c20b8aa690bc420e88deeb8900c9ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 55/63] fix: string parameters could not be written to binary
 SDDS files

---
 rsbeams/rsdata/SDDS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index dae3a8f..4de16f6 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -702,7 +702,10 @@ class writeSDDS:
             if parameter['parData'] is not None:
                 if self.dataMode == 'ascii':
                         outputFile.write('{}\n'.format(parameter['parData']).encode())
-                if self.dataMode == 'binary':
+                if self.dataMode == 'binary' and parameter['parType'] == 'string':
+                        text = str(parameter['parData']).encode()
+                        outputFile.write(pack('=i', len(text)) + text)
+                elif self.dataMode == 'binary':
                         outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]),
                                               parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']))
 
-- 
2.43.0


From f268a0c63b0b6586634d618a32836b1c0b93d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 56/63] fix: quotes and backslashes in SDDS header fields were
 written without escapes

---
 rsbeams/rsdata/SDDS.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 4de16f6..e169c4c 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -518,6 +518,11 @@ parameterAttributeStr = {'parName': ['name=', '{}'], 'parType': ['type=', '{}'],
                          'parDescription': ['description=', '"{}"'], 'parFixedVal': ['fixed_value=', '{}']}
 
 
+def _escaped(value):
+    # for use inside of double quotes
+    return str(value).replace('\\', '\\\\').replace('"', '\\"')
+
+
 class writeSDDS:
     """
     Implements an SDDS class in Python.
@@ -625,7 +630,7 @@ class writeSDDS:
             if type(parFixedVal) in [float, int]:
                 pass
             elif type(parFixedVal) == str:
-                parFixedVal = '"{}"'.format(parFixedVal)
+                parFixedVal = '"{}"'.format(_escaped(parFixedVal))
 
         parameter_data = {'parName': parName, 'parData': parData, 'parType': parType, 'parUnits': parUnits,
                           'parSymbol': parSymbol, 'parFormatStr': parFormatStr, 'parDescription': parDescription,
@@ -644,7 +649,7 @@ class writeSDDS:
                 # a fixed value may be 0
                 if key in parameterAttributeStr.keys() and (value or key == 'parFixedVal' and value is not None):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
-                                                                                          value=parameterAttributeStr[key][1].format(value))))
+                                                                                          value=parameterAttributeStr[key][1].format(_escaped(value) if key != 'parFixedVal' else value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
             parameterString = ''
 
@@ -654,7 +659,7 @@ class writeSDDS:
                     # split logic to avoid the hassle of testing existance of arrays separately
                     if value:
                         columnString = ''.join((columnString, '{field}{value}, '.format(field=columnAttributeStr[key][0],
-                                                                    value=columnAttributeStr[key][1].format(value))))
+                                                                    value=columnAttributeStr[key][1].format(_escaped(value)))))
             outputFile.write('&column {} &end\n'.format(columnString).encode())
             columnString = ''
 
-- 
2.43.0


From 4cf3ab8737f9936b053a7fb497323874cfa56049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 57/63] fix: names with blanks or commas were cut in SDDS
 headers

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index e169c4c..a46d95b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -510,10 +510,10 @@ class readSDDS:
         return self._data_descriptions['&column'][column]['type']
 
 headSDDS = "SDDS1\n"
-columnAttributeStr = {'colName': ['name=', '{}'], 'colType': ['type=', '{}'], 'colUnits': ['units=', '"{}"'],
+columnAttributeStr = {'colName': ['name=', '"{}"'], 'colType': ['type=', '{}'], 'colUnits': ['units=', '"{}"'],
                       'colSymbol': ['symbol=', '"{}"'], 'colFormatStr': ['format_string=', '"{}"'],
                       'colDescription': ['description=', '"{}"'], 'colFieldLen': ['field_length=', '"{}"']}
-parameterAttributeStr = {'parName': ['name=', '{}'], 'parType': ['type=', '{}'], 'parUnits': ['units=', '"{}"'],
+parameterAttributeStr = {'parName': ['name=', '"{}"'], 'parType': ['type=', '{}'], 'parUnits': ['units=', '"{}"'],
                          'parSymbol': ['symbol=', '"{}"'], 'parFormatStr': ['format_string=', '"{}"'],
                          'parDescription': ['description=', '"{}"'], 'parFixedVal': ['fixed_value=', '{}']}
 
-- 
2.43.0


From dbad73d4bfe0689a71dcb90b8ab9126b650f0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 58/63] fix: texts beyond ascii in SDDS headers were read in
 another encoding than they are written

---
 rsbeams/rsdata/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index b1a06d5..f4f0536 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -25,7 +25,11 @@ def _return_type(string):
 def _read_line(open_file):
     line = ''
     while line.strip() == '' or line.lstrip()[0] == '!':
-        line = str(open_file.readline(), 'latin-1')
+        line = open_file.readline()
+        try:
+            line = str(line, 'utf-8')
+        except UnicodeDecodeError:
+            line = str(line, 'latin-1')
         if line == '':
             raise Exception("Header cannot be read")
     return line
-- 
2.43.0


From 4dcd4ca7fdc24ff1e3320c08c8b2e8d193528a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 59/63] fix: some names of parameters and columns were changed
 when ascii SDDS files were read

---
 rsbeams/rsdata/SDDS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index a46d95b..6c14986 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -412,6 +412,11 @@ class readSDDS:
             return np.zeros(1, dtype=dtype)
         return self._get_reader()(self.openf, dtype=dtype, count=1, offset=position)
 
+    @staticmethod
+    def _restore_names(array, dtype):
+        # genfromtxt changes names such as 'file' or names with blanks
+        array.dtype.names = tuple(field[0] for field in dtype)
+
     def _get_parameter_data(self, data_keys, position):
         data_arrays = [[]]
         for dk in data_keys:
@@ -424,6 +429,7 @@ class readSDDS:
             if self.data['&data'][0].fields['mode'] == 'ascii':
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
                                                comments='!', deletechars='', unpack=False, delimiter='\n\t')
+                self._restore_names(new_array, dk)
                 if self.buffer:
                     position += 1
             else:
@@ -452,6 +458,7 @@ class readSDDS:
                     if self.data['&data'][0].fields['mode'] == 'ascii':
                         new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=1,
                                                        comments='!', deletechars='')
+                        self._restore_names(new_array, dk)
                         if self.buffer:
                             position += 1
                     else:
@@ -466,6 +473,7 @@ class readSDDS:
             if self.data['&data'][0].fields['mode'] == 'ascii':
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
                                                comments='!', deletechars='')
+                self._restore_names(new_array, dk)
                 if self.buffer:
                     position += row_count
             else:
-- 
2.43.0


From cf1db965fc81406a00e84761dcd98837dc20000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 60/63] fix: the type of an elegant element ends its name,
 colons in parameter values do not count

---
 rsbeams/rslattice/lte_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 76f2b38..8136428 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -255,7 +255,7 @@ class BeamlineParser(object):
         :return:
         """
 
-        type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
+        type_start = beamline_string.find(':')
         type_end = beamline_string.find(',')
         if type_end < 0:
             type_end = len(beamline_string)
-- 
2.43.0


From eec343aa1f0526a28fa8d54490e3d92e9ee4a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 61/63] fix: the eigen-solver dropped off-diagonal elements
 next to negative eigenvalues of 50 times their size

---
 rsbeams/rsstats/stats6d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index 71fabe3..a424499 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -116,8 +116,8 @@ def jacobi_eigen_solver6d(sigma6D):
         for ip in range(5):
             for iq in range(ip+1,6):
                 gScal=100.*math.fabs(sigma6D[ip,iq])
-                if nMaster>3 and math.fabs(float(eVals[ip])+gScal)==math.fabs(eVals[ip]) \
-                             and math.fabs(float(eVals[iq])+gScal)==math.fabs(eVals[iq]):
+                if nMaster>3 and math.fabs(float(eVals[ip]))+gScal==math.fabs(eVals[ip]) \
+                             and math.fabs(float(eVals[iq]))+gScal==math.fabs(eVals[iq]):
                     sigma6D[ip,iq]=0.0
                 elif math.fabs(sigma6D[ip,iq])>threshold:
                     hScal=float(eVals[iq])-float(eVals[ip])
-- 
2.43.0


From 4859badaea8901ee3c82edefca79add8fdb3d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 62/63] fix: handle_cavities gave every Trace3D cavity the
 phase of the last one

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 27af4a6..439e38f 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -232,8 +232,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, ['phase', ], [phase, ])
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From 1d7795355c6754bc76a9842d37ada6f1b17377b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 63/63] fix: membership and get of element parameters were case
 sensitive

---
 rsbeams/rslattice/Element.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..8778db0 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -58,6 +58,12 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __contains__(self, key):
+        return type(key) == str and dict.__contains__(self, key.lower())
+
+    def get(self, key, default=None):
+        return self[key] if key in self else default
+
 
 class Element(object):
     """
-- 
2.43.0

