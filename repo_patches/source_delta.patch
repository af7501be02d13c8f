From 05e6ea30bb11cb7d6fdded61d4071535b77717b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:14 +0000
Subject: [PATCH 01/64] fix: accept a CCVS listed before its sensing source

The CCVS row was stamped while the matrix was still being grown, so that a
sensing source found later in the element list resulted in an IndexError.
---
 ahkab/dc_analysis.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 60de681..6eb7296 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1047,8 +1047,9 @@ def generate_mna_and_N(circ, verbose=3):
                 # N[index,0] = 0 pass, it's already zero
                 pass
             elif isinstance(elem, components.sources.HVSource):
-                index_source = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes+index_source] = 1.0 * elem.alpha
+                # taken care of below: the sensing source may not have been
+                # processed yet
+                pass
             else:
                 print("dc_analysis.py: BUG - found an unknown voltage_def elem.")
                 print(elem)
@@ -1060,6 +1061,10 @@ def generate_mna_and_N(circ, verbose=3):
             local_i_index = circ.find_vde_index(elem.source_id, verbose=0)
             mna[elem.n1, n_of_nodes + local_i_index] = mna[elem.n1, n_of_nodes + local_i_index] + elem.alpha
             mna[elem.n2, n_of_nodes + local_i_index] = mna[elem.n2, n_of_nodes + local_i_index] - elem.alpha
+        elif isinstance(elem, components.sources.HVSource):
+            index_source = circ.find_vde_index(elem.source_id, verbose=0)
+            index = n_of_nodes + circ.find_vde_index(elem.part_id, verbose=0)
+            mna[index, n_of_nodes + index_source] = mna[index, n_of_nodes + index_source] + elem.alpha
 
     # Seems a good place to run some sanity check
     # for the time being we do not halt the execution
-- 
2.43.0


From 641dcd73c02b98694a8fdaff3f3f08780833c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:27 +0000
Subject: [PATCH 02/64] fix: OP total power with G and H sources

VCCS power used the output nodes in place of the sensing ones; the CCVS power
ignored the source's own terminals and did not advance the current index, so
that the power of each later voltage source was wrong too.
---
 ahkab/results.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7e7072c..da4928a 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -391,8 +391,8 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 vs = 0
-                vs = vs + x[elem.n1-1] if elem.sn1 != 0 else vs
-                vs = vs - x[elem.n2-1] if elem.sn2 != 0 else vs
+                vs = vs + x[elem.sn1-1] if elem.sn1 != 0 else vs
+                vs = vs - x[elem.sn2-1] if elem.sn2 != 0 else vs
                 tot_power = tot_power - v*vs*elem.alpha
             elif isinstance(elem, components.sources.ISource):
                 v = 0
@@ -400,7 +400,8 @@ class op_solution(solution, _mutable_data):
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
                 tot_power = tot_power - v*elem.I()
             elif isinstance(elem, components.sources.VSource) or \
-                 isinstance(elem, components.sources.EVSource):
+                 isinstance(elem, components.sources.EVSource) or \
+                 isinstance(elem, components.sources.HVSource):
                 v = 0
                 v = v + x[elem.n1-1] if elem.n1 != 0 else v
                 v = v - x[elem.n2-1] if elem.n2 != 0 else v
@@ -423,15 +424,6 @@ class op_solution(solution, _mutable_data):
                 v = v + x[elem.n1 - 1] if elem.n1 != 0 else v
                 v = v - x[elem.n2 - 1] if elem.n2 != 0 else v
                 tot_power = tot_power - v * elem.alpha * x[nv_1 + local_i_index, 0]
-            elif isinstance(elem, components.sources.HVSource):
-                try:
-                    local_i_index = circ.find_vde_index(elem.source_id)
-                except ValueError:
-                    raise RuntimeError("Sensing voltage source %s for %s not found. BUG!" %
-                                       (elem.source_id, elem.part_id))
-                local_i_index2 = circ.find_vde_index(elem.part_id)
-                tot_power = tot_power - elem.alpha*x[nv_1 + local_i_index, 0]* \
-                                        x[nv_1 + local_i_index2, 0]
             elif circuit.is_elem_voltage_defined(elem):
                 i_index = i_index + 1
 
-- 
2.43.0


From 9eaf1a7ffc8e7716886be4909f1f201099f84a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:56 +0000
Subject: [PATCH 03/64] fix: VCVS whose sensing nodes include an output node

The sensing terms overwrote the KVL coefficients of the output nodes instead
of adding to them (DC/AC/transient matrix and symbolic matrix).
---
 ahkab/dc_analysis.py | 4 ++--
 ahkab/symbolic.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 6eb7296..884c1ad 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1041,8 +1041,8 @@ def generate_mna_and_N(circ, verbose=3):
             elif isinstance(elem, components.sources.VSource) and elem.is_timedependent:
                 pass  # taken care step by step
             elif isinstance(elem, components.sources.EVSource):
-                mna[index, elem.sn1] = -1.0 * elem.alpha
-                mna[index, elem.sn2] = +1.0 * elem.alpha
+                mna[index, elem.sn1] = mna[index, elem.sn1] - elem.alpha
+                mna[index, elem.sn2] = mna[index, elem.sn2] + elem.alpha
             elif isinstance(elem, components.Inductor):
                 # N[index,0] = 0 pass, it's already zero
                 pass
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a98a403..77ccd94 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -491,8 +491,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         alpha = subs[alpha]
                 else:
                     alpha = elem.alpha
-                mna[index, elem.sn1] = -alpha
-                mna[index, elem.sn2] = +alpha
+                mna[index, elem.sn1] = mna[index, elem.sn1] - alpha
+                mna[index, elem.sn2] = mna[index, elem.sn2] + alpha
             elif isinstance(elem, components.sources.HVSource):
                 if elem.is_symbolic:
                     alpha = _symbol_factory(elem.part_id.upper(), real=True)
-- 
2.43.0


From e62194a7956385b60803c0e2ed4c9203db95ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 04/64] fix: AC analysis without a sweep type, logarithmic
 sweep of one point

---
 ahkab/ac.py        | 4 +++-
 ahkab/utilities.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 75aba01..dfe6759 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -206,7 +206,9 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
         raise ValueError("AC analysis has start > stop")
     if points < 2 and not start == stop:
         raise ValueError("AC analysis has number of points < 2 & start != stop")
-    if sweep_type.upper() == options.ac_log_step or sweep_type is None:
+    if sweep_type is None:
+        sweep_type = options.ac_log_step
+    if sweep_type.upper() == options.ac_log_step:
         omega_iter = utilities.log_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
     elif sweep_type.upper() == options.ac_lin_step:
         omega_iter = utilities.lin_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index ee30470..c73dd18 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -264,7 +264,11 @@ class log_axis_iterator:
     """
 
     def __init__(self, min, max, points):
-        self.inc = 10.**((np.log10(max) - np.log10(min))/(points - 1))
+        if points == 1 and min == max:
+            # same as lin_axis_iterator: they expect to get back [max]
+            self.inc = 1.
+        else:
+            self.inc = 10.**((np.log10(max) - np.log10(min))/(points - 1))
         self.max = max
         self.min = min
         self.index = 0
-- 
2.43.0


From ea416f40e87bee028231c0f68c4e2366106f8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:29 +0000
Subject: [PATCH 05/64] fix: MOSQ conductances are the derivatives of the drain
 current

---
 ahkab/mosq.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index ae86b8e..4c65050 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -378,7 +378,7 @@ class mosq_device(object):
                           (-gmd, -gmg, gmd + gmg + gmb, -gmb),
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
-            stamp = self.mosq_model.T1*stamp*self.mosq_model.T2
+            stamp = np.dot(np.dot(self.mosq_model.T1, stamp), self.mosq_model.T2)
         if (self.opdict['state'] != ports_v[0]).any():
             self.opdict = {'state':ports_v[0]}
         self.opdict.update({'gmd': stamp[0, 0]})
@@ -690,23 +690,12 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         gmb = 0
-        if vgs < VT:
+        if vgs < VT or not vsqrt1 > 0:
             pass # gmb = 0
         else:
-            if vds < vgs - VT:
-                if vsqrt1 > 0:
-                    gmb = self.KP * self.GAMMA * vds * device.W / \
-                          (2 * device.L * vsqrt1 ** .5)
-            else:
-                if vsqrt1 > 0:
-                    gmb += -0.25*self.KP*self.GAMMA*self.LAMBDA*device.W * (vsqrt1 > 0) * \
-                           (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 / \
-                           (device.L * vsqrt1**.5)
-                    gmb += +0.5*self.KP*self.GAMMA*device.W*(self.LAMBDA* \
-                            (self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                            (-self.GAMMA * (vsqrt2**.5 + vsqrt1**.5) \
-                            + vgs - self.VTO) / (device.L * vsqrt1**.5)
-        gmb = self.NPMOS * (1 + skp) * gmb * device.M / device.N
+            # VT is the only term that depends on the bulk voltage
+            gmb = self.get_gm(self, device, voltages) * \
+                  self.GAMMA / (2. * math.sqrt(vsqrt1))
         if debug:
             print("gmb %g" % gmb)
         return gmb
@@ -791,12 +780,14 @@ class mosq_mos_model(object):
         if vgs < VT:
             gm = options.iea / VT / 100
         else:
-            if vds < vgs - VT:
+            vov = vgs - VT
+            if vds < vov - 0.5*self.LAMBDA*vov**2: # same limit as in get_ids()
                 gm = self.KP * device.W / device.L * vds
             else:
-                gm = -0.5*self.KP*self.LAMBDA * device.W/device.L * (-self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vgs - self.VTO)**2 \
-                     +0.5*self.KP * device.W/device.L *(self.LAMBDA*( self.GAMMA*(-vsqrt2**.5 + vsqrt1**.5) + vds - vgs + self.VTO) + 1.0) *\
-                     (-2 * self.GAMMA * (-vsqrt2**.5 + vsqrt1**.5) + 2*vgs - 2*self.VTO)
+                gm = self.KP * device.W / device.L * vov * \
+                     (1 + self.LAMBDA * (vds - vov + 0.25*self.LAMBDA*vov**2)) \
+                     + 0.5*self.KP * device.W / device.L * vov**2 * \
+                     (0.5*self.LAMBDA**2*vov - self.LAMBDA)
         gm = (1 + skp) * gm * device.M / device.N
         if debug:
             print("gmg %g" % gm)
-- 
2.43.0


From ea8384bbab4a3924209f25271346e68395046813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:29 +0000
Subject: [PATCH 06/64] fix: switch transconductance is proportional to the
 output voltage

---
 ahkab/switch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/switch.py b/ahkab/switch.py
index c95cc91..06524de 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -394,7 +394,7 @@ class vswitch_model:
         """Returns the source to output transconductance or d(I)/d(Vsn1-Vsn2)."""
         (vout, vin) = xxx_todo_changeme2
         self._update_status(vin, dev)
-        gm = self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
+        gm = vout * self.A * self.SLOPE * (math.tanh(self.SLOPE * (self.V - vin)) ** 2 - 1) / (
             self.A * math.tanh(self.SLOPE * (self.V - vin)) - self.B) ** 2
         return gm + options.gmin
 
-- 
2.43.0


From 71615a095f03bc229f87fd6efbca129b389c0d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:55 +0000
Subject: [PATCH 07/64] fix: diode conductance is the derivative of the diode
 current

With breakdown, high injection or a series resistance the conductance was not
the slope of the current; the current at zero bias was IS instead of zero, the
area was not applied together with RS, and the thermal voltage did not follow
the device temperature.
---
 ahkab/diode.py | 66 ++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index 1b31f7a..d02bcea 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -353,33 +353,26 @@ class diode_model(object):
     def get_i(self, vext, dev):
         if dev.T != self.T:
             self.set_temperature(dev.T)
+        return self._get_i(self._get_vj(vext, dev)) * dev.AREA
+
+    def _get_vj(self, vext, dev):
+        """The voltage across the junction, ``vext`` minus the drop over RS"""
         if not self.RS:
-            i = self._get_i(vext) * dev.AREA
             dev.last_vd = vext
-        else:
-            vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
-            vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
-                        args=(vext, dev), tol=options.vea, maxiter=500)
-            i = self._get_i(vext-vd)
-            dev.last_vd = vd
-        return i
-
-    def _obj_irs(self, x, vext, dev):
-        # obj fn for newton
-        return x/self.RS-self._get_i(vext-x)*dev.AREA
-
-    def _obj_irs_prime(self, x, vext, dev):
+            return vext
+        vd = dev.last_vd if dev.last_vd is not None else 10*self.VT
+        vd = newton(self._obj_irs, vd, fprime=self._obj_irs_prime,
+                    args=(vext,), tol=options.vea, maxiter=500)
+        dev.last_vd = vd
+        return vext - vd
+
+    def _obj_irs(self, x, vext):
+        # obj fn for newton, currents are per unit area, as RS is
+        return x/self.RS-self._get_i(vext-x)
+
+    def _obj_irs_prime(self, x, vext):
         # obj fn derivative for newton
-        # first term
-        ret = 1./self.RS
-        # disable RS
-        RSSAVE = self.RS
-        self.RS = 0
-        # second term
-        ret += self.get_gm(self, 0, (vext-x,), 0, dev)
-        # renable RS
-        self.RS = RSSAVE
-        return ret
+        return 1./self.RS + self._get_gj(vext-x)
 
     def _safe_exp(self, x):
         return np.exp(x) if x < 70 else np.exp(70) + 10 * x
@@ -387,24 +380,32 @@ class diode_model(object):
     def _get_i(self, v):
         i_fwd= self.IS * (self._safe_exp(v/(self.N * self.VT)) - 1)
         i_rec= self.ISR* (self._safe_exp(v/(self.NR * self.VT)) - 1)
-        i_rev=-self.IS * (self._safe_exp(-(v+self.BV)/(self.NBV *self.VT)) - 1)
+        i_rev=-self.IS * self._safe_exp(-(v+self.BV)/(self.NBV *self.VT))
         k_inj = 1
         if (not isinf(self.IKF)) and (self.IKF>0) and (i_fwd>0):
             k_inj = sqrt(self.IKF/(self.IKF+i_fwd))
         
         return k_inj*i_fwd+i_rec+i_rev
 
+    def _get_gj(self, v):
+        """The derivative of _get_i(v)"""
+        g_fwd = self.IS / (self.N * self.VT) *\
+            self._safe_exp(v / (self.N * self.VT))
+        g_rec = self.ISR / (self.NR * self.VT) *\
+            self._safe_exp(v / (self.NR * self.VT))
+        g_rev = self.IS / (self.NBV * self.VT) *\
+            self._safe_exp(-(v + self.BV) / (self.NBV * self.VT))
+        i_fwd = self.IS * (self._safe_exp(v / (self.N * self.VT)) - 1)
+        if (not isinf(self.IKF)) and (self.IKF > 0) and (i_fwd > 0):
+            g_fwd *= sqrt(self.IKF / (self.IKF + i_fwd)) *\
+                (1 - .5 * i_fwd / (self.IKF + i_fwd))
+        return g_fwd + g_rec + g_rev
+
     @utilities.memoize
     def get_gm(self, op_index, ports_v, port_index, dev):
         if dev.T != self.T:
             self.set_temperature(dev.T)
-        v=ports_v[0]
-        gm = self.IS / (self.N * self.VT) *\
-            self._safe_exp(v / (self.N * self.VT)) +\
-            -self.IS/self.VT * (self._safe_exp(-(v+self.BV)/self.VT)) +\
-            self.ISR / (self.NR * self.VT) *\
-            self._safe_exp(v / (self.NR * self.VT))
-        
+        gm = self._get_gj(self._get_vj(ports_v[0], dev))
         if self.RS != 0.0:
             gm = 1. / (self.RS + 1. / (gm + 1e-3*options.gmin))
         return dev.AREA * gm
@@ -422,4 +423,5 @@ class diode_model(object):
         self.BV = self.BV - self.TBV*(T - self.T)
         self.RS = self.RS*(1 + self.TRS*(T - self.T))
         self.T = T
+        self.VT = constants.Vth(self.T)
 
-- 
2.43.0


From ea673d6b6ec7e256ccf1f891f039a0dc9af1d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 08/64] fix: EKV normalized current depended on the previous
 bias point

The Newton search for the normalized current started from the last value and
could end on a point that is not a solution (e.g. zero current in weak
inversion).
---
 ahkab/ekv.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 2b8cdff..82c79b6 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -77,7 +77,6 @@ from __future__ import (unicode_literals, absolute_import,
 import scipy, scipy.optimize
 import math
 
-from scipy.optimize import newton
 
 from . import constants
 from . import options
@@ -719,11 +718,17 @@ class ekv_mos_model:
             raise ValueError("Attempted to calculate a current corresponding to a NaN voltage.")
         if not ip_abs_err > 0:
             raise ValueError("The normalized current absolute error has been set to a negative value.")
-        ismall = newton(self._vsmall_obj, iguess, fprime=self._vsmall_obj_prime,
-                        fprime2=self._vsmall_obj_prime2, args=(vsmall,),
-                        tol=1.48e-8, maxiter=500)
-        #print(ismall, max(ismall, 0))
-        return max(ismall, 10*utilities.EPS)
+        # solve for y = ln(q): the function y + 2*exp(y) - v is convex and the
+        # starting point is above the root, so the method always converges to
+        # it, whatever the (now unused) initial guess.
+        y = math.log(vsmall / 2.0) if vsmall > 2 else vsmall
+        for _ in range(100):
+            q = math.exp(y)
+            dy = (y + 2.0*q - vsmall)/(1.0 + 2.0*q)
+            y = y - dy
+            if abs(dy) < 1e-14*max(1.0, abs(y)):
+                break
+        return max(self.qsmall2ismall(math.exp(y)), 10*utilities.EPS)
 
     def _vsmall_obj(self, x, vsmall):
         """Returns :math:`e` according to the equations:
-- 
2.43.0


From 80cfd28cc7041dbdf8b69335fea374b6d4c06604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 09/64] fix: diode temperature changes: stale currents, RS
 drift

---
 ahkab/diode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ahkab/diode.py b/ahkab/diode.py
index d02bcea..f031bba 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -33,6 +33,7 @@ This module contains a diode element and its model class.
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import copy
 from math import e as E, isinf, sqrt
 import numpy as np
 
@@ -112,6 +113,7 @@ class diode(object):
         # this automatically makes the memoization cache obsolete. self.device
         # is in fact passed as one of the arguments, hashed and stored:
         # if it changes, the old cache will return misses.
+        self.device = copy.copy(self.device)
         self.device.T = T
 
     def __str__(self):
@@ -421,7 +423,8 @@ class diode_model(object):
                          (self.N*constants.k*T)*
                          (1 - T/self.T))
         self.BV = self.BV - self.TBV*(T - self.T)
-        self.RS = self.RS*(1 + self.TRS*(T - self.T))
+        self.RS = self.RS*(1 + self.TRS*(T - T_DEFAULT))/ \
+                  (1 + self.TRS*(self.T - T_DEFAULT))
         self.T = T
         self.VT = constants.Vth(self.T)
 
-- 
2.43.0


From a975ea411c399b290e9d2083ac4a1e8d60e6c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 10/64] fix: EKV conductances of p-channel and multiple devices

---
 ahkab/ekv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 82c79b6..8d397db 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -412,7 +412,7 @@ class ekv_mos_model:
         elif VFB is not None:
             self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
         else:
-            self.VTO = self.NPMOS * VTO_DEFAULT
+            self.VTO = VTO_DEFAULT
 
         if KP is not None:
             self.KP = float(KP)
@@ -674,9 +674,9 @@ class ekv_mos_model:
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         if CS_FACTOR == +1:
-            gms = -1.0 * self.scaling.Gs * qf
+            gms = -1.0 * device.M * self.scaling.Gs * qf
         elif CS_FACTOR == -1:
-            gms = -self.scaling.Gs * qr
+            gms = -device.M * self.scaling.Gs * qr
         return gms
 
     def get_gmd(self, device, xxx_todo_changeme3, opdict=None, debug=False):
@@ -685,18 +685,18 @@ class ekv_mos_model:
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         if CS_FACTOR == +1:
-            gmd = self.scaling.Gs * qr
+            gmd = device.M * self.scaling.Gs * qr
         elif CS_FACTOR == -1:
-            gmd = self.scaling.Gs * qf
+            gmd = device.M * self.scaling.Gs * qf
         return gmd
 
     def get_gmg(self, device, xxx_todo_changeme4, opdict=None, debug=False):
         """Returns the gate-bulk transconductance or d(IDS)/d(VG-VB)."""
         (vd, vg, vs) = xxx_todo_changeme4
-        VP, nv, nq = self.get_vp_nv_nq(float(vg))
+        VP, nv, nq = self.get_vp_nv_nq(self.NPMOS * float(vg))
         Ids, qf, qr = self.get_ids(device, (vd, vg, vs), opdict, debug)
         (j1, j2, j3), CS_FACTOR = self.get_voltages(vd, vg, vs)
-        gmg = CS_FACTOR * self.scaling.Gs * (qf - qr) / nv
+        gmg = CS_FACTOR * device.M * self.scaling.Gs * (qf - qr) / nv
         return gmg
 
     def get_ismall(self, vsmall, ip_abs_err, iguess=None, debug=False):
-- 
2.43.0


From e59038fe73d11de585bd61010e3955c37deab829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 11/64] fix: MOSQ device off with a zero or negative threshold

---
 ahkab/mosq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 4c65050..dcb61ea 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -640,7 +640,7 @@ class mosq_mos_model(object):
         VT = self.get_VT((vds, vgs, vbs), device)
         _, skp = self.get_svt_skp(device)
         if vgs < VT:
-            ids = options.iea * (vgs / VT + vds / VT) / 100
+            ids = options.iea * (vgs + vds) / max(VT, .1) / 100
             if debug:
                 print("OFF: %g" % ids)
         else:
@@ -732,7 +732,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gmd = options.iea / VT / 100
+            gmd = options.iea / max(VT, .1) / 100
         else:
             if vds < vgs -VT -0.5*self.LAMBDA*(VT - vgs)**2: # correction term disc. due to LAMBDA
                 gmd = self.KP * device.W / device.L * (vgs - vds - VT)
@@ -778,7 +778,7 @@ class mosq_mos_model(object):
         VT = self.VTO + svt + self.GAMMA * \
             (math.sqrt(vsqrt1) - math.sqrt(vsqrt2))
         if vgs < VT:
-            gm = options.iea / VT / 100
+            gm = options.iea / max(VT, .1) / 100
         else:
             vov = vgs - VT
             if vds < vov - 0.5*self.LAMBDA*vov**2: # same limit as in get_ids()
-- 
2.43.0


From 14c22e94a85ce115fa082c544499d4817b43ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:28 +0000
Subject: [PATCH 12/64] fix: fixed-step transient analysis with the implicit
 Euler formula

---
 ahkab/transient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 14f8ce8..ca02488 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -256,7 +256,8 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
         buffer_len += 1
         thebuffer = dfbuffer(length=buffer_len, width=3)
     else:
-        thebuffer = dfbuffer(length=max(max_x, max_dx) + 1, width=3)
+        buffer_len = max(mx for mx in (0, max_x, max_dx) if mx is not None)
+        thebuffer = dfbuffer(length=buffer_len + 1, width=3)
     thebuffer.add((tstart, x0, None)) #setup the first values
     printing.print_info_line(("done.", 5), verbose) #FIXME
 
-- 
2.43.0


From ceda6badd90e47f467b5c7c5c0f856d084990857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:31 +0000
Subject: [PATCH 13/64] fix: transient analysis repeated the last step past the
 stop time after rounding

---
 ahkab/transient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index ca02488..9746c43 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -384,6 +384,9 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
             # disabled, or it's enabled and the error is small
             # enough. Anyway, the result is GOOD, STORE IT.
             time = time + old_step
+            if abs(tstop - time) < 1e-6 * old_step:
+                # only the rounding error separates us from the stop time
+                time = tstop
             x = x1
             iter_n = iter_n + 1
             sol.add_line(time, x)
-- 
2.43.0


From 1deccf3d004232c1f755028466139dc34d94d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:48 +0000
Subject: [PATCH 14/64] fix: MOSQ device whose operating point is asked before
 any iteration

---
 ahkab/mosq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index dcb61ea..468ce33 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -251,7 +251,7 @@ class mosq_device(object):
         """
         if self.opdict is None:
             self.opdict = {}
-        if not (self.opdict['state'] == ports_v[0]).all() or 'gmd' not in self.opdict \
+        if list(self.opdict['state']) != list(ports_v[0]) or 'gmd' not in self.opdict \
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
@@ -379,8 +379,8 @@ class mosq_device(object):
                           (0, 0, 0, 0)), dtype=np.float64)
         if CS == -1:
             stamp = np.dot(np.dot(self.mosq_model.T1, stamp), self.mosq_model.T2)
-        if (self.opdict['state'] != ports_v[0]).any():
-            self.opdict = {'state':ports_v[0]}
+        if list(self.opdict['state']) != list(ports_v):
+            self.opdict = {'state':ports_v}
         self.opdict.update({'gmd': stamp[0, 0]})
         self.opdict.update({'gm': stamp[0, 1]})
         self.opdict.update({'gmb': stamp[0, 3]})
-- 
2.43.0


From cc8501fdfb009bba463340fde61398943937f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:16 +0000
Subject: [PATCH 15/64] fix: transient step lost in the rounding of the time is
 too small

---
 ahkab/transient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/transient.py b/ahkab/transient.py
index 9746c43..a6f5868 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -468,7 +468,8 @@ def check_step(tstep, time, tstop, HMAX):
         tstep = HMAX
     if tstop - time < tstep:
         tstep = tstop - time
-    elif tstep < options.hmin:
+    elif tstep < options.hmin or not time + tstep > time:
+        # too short, or lost in the rounding of the current time
         printing.print_general_error("Step size too small: "+str(tstep))
         raise ValueError("Step size too small")
     return tstep
-- 
2.43.0


From 9791839dee66844463606bc14b090c6b1e4bb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:20 +0000
Subject: [PATCH 16/64] fix: homotopies end with the full-strength circuit,
 failed last method does not retry

---
 ahkab/dc_analysis.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 884c1ad..967ca77 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -262,10 +262,14 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         elif gmin_stepping["enabled"]:
             # print "gmin index:", str(gmin_stepping["index"])+", gmin:", str(
             # 10**(gmin_stepping["factors"][gmin_stepping["index"]]))
-            printing.print_info_line(
-                ("Setting Gmin to: " + str(10 ** gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
-            mna_to_pass = build_gmin_matrix(
-                circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna
+            if gmin_stepping["index"] < len(gmin_stepping["factors"]):
+                printing.print_info_line(
+                    ("Setting Gmin to: " + str(10 ** gmin_stepping["factors"][gmin_stepping["index"]]), 6), verbose)
+                mna_to_pass = build_gmin_matrix(
+                    circ, 10 ** (gmin_stepping["factors"][gmin_stepping["index"]]), mna_size, verbose) + mna
+            else:
+                # last step: the circuit that has to be solved
+                mna_to_pass = mna + Gmin
             N_to_pass = Ndc + Ntran * (Ntran is not None)
         elif source_stepping["enabled"]:
             printing.print_info_line(
@@ -309,10 +313,10 @@ def dc_solve(mna, Ndc, circ, Ntran=None, Gmin=None, x0=None, time=None,
         else:
             printing.print_info_line(
                 ("[%d iterations]" % (n_iter,), 6), verbose)
-            if (source_stepping["enabled"] and source_stepping["index"] != 9):
+            if (source_stepping["enabled"] and source_stepping["index"] < len(source_stepping["factors"]) - 1):
                 converged = False
                 source_stepping["index"] = source_stepping["index"] + 1
-            elif (gmin_stepping["enabled"] and gmin_stepping["index"] != 9):
+            elif (gmin_stepping["enabled"] and gmin_stepping["index"] < len(gmin_stepping["factors"])):
                 gmin_stepping["index"] = gmin_stepping["index"] + 1
                 converged = False
             else:
@@ -422,9 +426,13 @@ def more_solve_methods_available(standard_solving, gmin_stepping, source_steppin
         The answer.
     """
 
-    if (standard_solving["failed"] or not options.use_standard_solve_method) and \
-       (gmin_stepping["failed"] or not options.use_gmin_stepping) and \
-       (source_stepping["failed"] or not options.use_source_stepping):
+    # the method that is enabled is the one that has just failed
+    if (standard_solving["failed"] or standard_solving["enabled"] or
+        not options.use_standard_solve_method) and \
+       (gmin_stepping["failed"] or gmin_stepping["enabled"] or
+        not options.use_gmin_stepping) and \
+       (source_stepping["failed"] or source_stepping["enabled"] or
+        not options.use_source_stepping):
         return False
     else:
         return True
@@ -449,12 +457,13 @@ def get_solve_methods():
         The dictionaries contain the options and the status of the methods.
     """
     standard_solving = {"enabled": False, "failed": False}
-    g_indices = list(range(int(numpy.log(options.gmin)), 0))
+    g_indices = list(range(int(numpy.log10(options.gmin)), 0)) if options.gmin > 0 \
+                else list(range(-12, 0))
     g_indices.reverse()
     gmin_stepping = {"enabled": False, "failed":
                      False, "factors": g_indices, "index": 0}
     source_stepping = {"enabled": False, "failed": False, "factors": (
-        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9), "index": 0}
+        0.001, .005, .01, .03, .1, .3, .5, .7, .8, .9, 1.), "index": 0}
     return standard_solving, gmin_stepping, source_stepping
 
 
-- 
2.43.0


From 19ca5855159e2e52cf59c5cf8204e8a229fa3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:34 +0000
Subject: [PATCH 17/64] fix: DC sweep grid (rounding, step not dividing,
 logarithmic step, single point) and restoring of the source

---
 ahkab/ahkab.py       | 10 ++++-
 ahkab/dc_analysis.py | 92 +++++++++++++++++++++++---------------------
 2 files changed, 57 insertions(+), 45 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 14b06f8..dba42cc 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -313,8 +313,16 @@ def new_dc(start, stop, points, source, sweep_type='LINEAR', guess=True, x0=None
             atexit.register(os.remove, outfile)
     else:
         outfile += '.dc'
+    if points < 2:
+        if start != stop:
+            raise ValueError('DC sweep from %g to %g with %d points.' % (start, stop, points))
+        step = 0.
+    elif sweep_type.upper()[:3] == options.dc_log_step:
+        step = (float(stop) / float(start)) ** (1. / (points - 1))
+    else:
+        step = float(stop - start) / float(points - 1)
     return {
-        'type': 'dc', 'start': float(start), 'stop': float(stop), 'step': float(stop - start) / float(points - 1),
+        'type': 'dc', 'start': float(start), 'stop': float(stop), 'step': step,
         'source': source, 'x0': x0, 'outfile': outfile, 'guess': guess, 'sweep_type': sweep_type,
         'verbose': verbose}
 
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 967ca77..ff37d16 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -487,7 +487,8 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     source : string
         The part ID of the source to be swept, eg. ``'V1'``.
     sweep_type : string, optional
-        Either options.dc_lin_step (default) or options.dc_log_step
+        Either options.dc_lin_step (default) or options.dc_log_step. In the
+        latter case, each value is the previous one times ``step``.
     guess : boolean, optional
         op_analysis will guess to start the first NR iteration for the first point,
         the previsious OP is used from then on. Defaults to ``True``.
@@ -511,23 +512,34 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     elem_type, elem_descr = source[0].lower(), source.lower() # eg. 'v', 'v34'
     sweep_label = elem_type[0].upper() + elem_descr[1:]
 
-    if sweep_type == options.dc_log_step and stop - start < 0:
-        printing.print_general_error(
-            "DC analysis has log sweeping and negative stepping.")
-        sys.exit(1)
-    if (stop - start) * step < 0:
+    sweep_type = sweep_type.upper()[:3]
+    if sweep_type == options.dc_log_step:
+        # the value is multiplied by step at each iteration
+        if start <= 0 or stop <= 0 or (step <= 0 and start != stop):
+            raise ValueError("Logarithmic DC sweeps need positive values.")
+        span = np.log(stop) - np.log(start)
+        inc = np.log(step) if span != 0 else 0.
+    elif sweep_type == options.dc_lin_step:
+        span, inc = stop - start, step
+    else:
+        raise ValueError("Unknown sweep type: %s" % (sweep_type,))
+    if span != 0 and span * inc <= 0:
         raise ValueError("Unbonded stepping in DC analysis.")
 
-    points = (stop - start) / step + 1
-    sweep_type = sweep_type.upper()[:3]
+    # number of steps, disregarding the rounding errors
+    steps = span / inc if span != 0 else 0.
+    points = int(np.floor(steps * (1 + 1e-9) + 1e-9)) + 1
+    if abs(steps - (points - 1)) > 1e-9 * max(points, 1):
+        # the step does not lead to stop exactly: do not reach it
+        last = start + (points - 1) * step if sweep_type == options.dc_lin_step \
+               else start * step ** (points - 1)
+    else:
+        last = stop
 
     if sweep_type == options.dc_log_step:
-        dc_iter = utilities.log_axis_iterator(start, stop, points=points)
-    elif sweep_type == options.dc_lin_step:
-        dc_iter = utilities.lin_axis_iterator(start, stop, points=points)
+        dc_iter = utilities.log_axis_iterator(start, last, points=points)
     else:
-        printing.print_general_error("Unknown sweep type: %s" % (sweep_type,))
-        sys.exit(1)
+        dc_iter = utilities.lin_axis_iterator(start, last, points=points)
 
     if elem_type != 'v' and elem_type != 'i':
         printing.print_general_error(
@@ -548,10 +560,7 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     if not source_elem:
         raise ValueError(".DC: source %s was not found." % source)
 
-    if isinstance(source_elem, components.sources.VSource):
-        initial_value = source_elem.dc_value
-    else:
-        initial_value = source_elem.dc_value
+    initial_value = source_elem.dc_value
 
     # If the initial value is set to None, op_analysis will attempt a smart guess (if guess),
     # Then for each iteration, the last result is used as x0, since op_analysis will not
@@ -568,39 +577,34 @@ def dc_analysis(circ, start, stop, step, source, sweep_type='LINEAR', guess=True
     # sweep setup
 
     # tarocca il generatore di tensione, avvia DC silenziosa, ritarocca etc
-    index = 0
-    for sweep_value in dc_iter:
-        index = index + 1
-        if isinstance(source_elem, components.sources.VSource):
-            source_elem.dc_value = sweep_value
-        else:
+    solved = False
+    try:
+        for sweep_value in dc_iter:
             source_elem.dc_value = sweep_value
-        # silently calculate the op
-        x = op_analysis(circ, x0=x, guess=guess, verbose=0)
-        if x is None:
-            tick.hide(verbose > 2)
-            if not options.dc_sweep_skip_allowed:
-                print("Could't solve the circuit for sweep value:", start + index * step)
-                solved = False
-                break
-            else:
-                print("Skipping sweep value:", start + index * step)
-                continue
-        solved = True
-        sol.add_op(sweep_value, x)
-
-        tick.step()
+            # silently calculate the op
+            op = op_analysis(circ, x0=x, guess=guess, verbose=0)
+            if op is None:
+                tick.hide(verbose > 2)
+                if not options.dc_sweep_skip_allowed:
+                    print("Could't solve the circuit for sweep value:", sweep_value)
+                    solved = False
+                    break
+                else:
+                    print("Skipping sweep value:", sweep_value)
+                    continue
+            x = op
+            solved = True
+            sol.add_op(sweep_value, op)
+
+            tick.step()
+    finally:
+        # clean up
+        source_elem.dc_value = initial_value
 
     tick.hide(verbose > 2)
     if solved:
         printing.print_info_line(("done", 3), verbose)
 
-    # clean up
-    if isinstance(source_elem, components.sources.VSource):
-        source_elem.dc_value = initial_value
-    else:
-        source_elem.dc_value = initial_value
-
     return sol if solved else None
 
 
-- 
2.43.0


From 09d2977c967b54d2b232c5c7b10738f5ca679e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 18/64] fix: removal of elements (devices, controlled sources,
 couplings, node numbers) and refused additions

---
 ahkab/circuit.py | 138 +++++++++++++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 47 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index eead870..d887d57 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -119,7 +119,7 @@ Reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
-import copy
+import functools
 import math
 
 from . import components
@@ -133,6 +133,20 @@ from . import switch
 # will be added here by netlist_parser and circuit instances
 user_defined_modules_dict = {}
 
+def _undo_nodes_on_error(add_method):
+    """Forget the nodes that were added by a refused addition of an element"""
+    @functools.wraps(add_method)
+    def add(self, *args, **kwargs):
+        nodes = dict(self.nodes_dict)
+        try:
+            return add_method(self, *args, **kwargs)
+        except Exception:
+            self.nodes_dict.clear()
+            self.nodes_dict.update(nodes)
+            raise
+    return add
+
+
 class Circuit(list):
     """The circuit class.
 
@@ -192,12 +206,11 @@ class Circuit(list):
         if type(name) not in py3compat.string_types:
             raise TypeError("The node %s should have been of text type" %
                             name)
-        got_ref = 0 in self.nodes_dict
         if name not in self.nodes_dict:
             if name == '0':
                 int_node = 0
             else:
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._new_int_node()
             self.nodes_dict.update({int_node:name})
             self.nodes_dict.update({name:int_node})
         else:
@@ -245,14 +258,42 @@ class Circuit(list):
             if ext_name == '0':
                 int_node = 0
             else:
-                got_ref = 0 in self.nodes_dict
-                int_node = int(len(self.nodes_dict)/2) + 1*(not got_ref)
+                int_node = self._new_int_node()
             self.nodes_dict.update({int_node:ext_name})
             self.nodes_dict.update({ext_name:int_node})
         else:
             int_node = self.nodes_dict[ext_name]
         return int_node
 
+    def _new_int_node(self):
+        """The first free internal node number"""
+        int_node = int(len(self.nodes_dict)/2) + 1*(0 not in self.nodes_dict)
+        if int_node in self.nodes_dict:
+            # nodes were removed and left a gap in the numbers
+            int_node = 1
+            while int_node in self.nodes_dict:
+                int_node = int_node + 1
+        return int_node
+
+    def _close_node_gaps(self):
+        """Renumber the internal nodes, to have no gaps left by removed nodes.
+        """
+        used = sorted(n for n in self.nodes_dict if isinstance(n, int) and n)
+        new = dict((n, i + 1) for i, n in enumerate(used) if n != i + 1)
+        if not new:
+            return
+        names = [(n, self.nodes_dict.pop(n)) for n in used]
+        for n, ext_name in names:
+            self.nodes_dict.update({new.get(n, n):ext_name})
+            self.nodes_dict.update({ext_name:new.get(n, n)})
+        for elem in self:
+            for attr in ('n1', 'n2', 'sn1', 'sn2', 'ng', 'nb'):
+                if getattr(elem, attr, None) in new:
+                    setattr(elem, attr, new[getattr(elem, attr)])
+            if hasattr(elem, 'ports'):
+                elem.ports = tuple(tuple(new.get(n, n) for n in port)
+                                   for port in elem.ports)
+
     def new_internal_node(self):
         """Generate implicit internal nodes.
 
@@ -271,12 +312,16 @@ class Circuit(list):
         """
 
         ext_node = "INT" + str(self.internal_nodes)
+        while ext_node in self.nodes_dict:
+            self.internal_nodes = self.internal_nodes + 1
+            ext_node = "INT" + str(self.internal_nodes)
         self.internal_nodes = self.internal_nodes + 1
         self.create_node(ext_node)
         return ext_node
 
     def get_nodes_number(self):
         """Returns the number of nodes in the circuit"""
+        self._close_node_gaps()
         return int(len(self.nodes_dict)/2)
 
     def is_int_node_internal_only(self, int_node):
@@ -462,6 +507,7 @@ class Circuit(list):
             del self.models[model_label]
         # should print a warning here
 
+    @_undo_nodes_on_error
     def add_resistor(self, part_id, n1, n2, value):
         """Adds a resistor to the circuit.
 
@@ -497,6 +543,7 @@ class Circuit(list):
         elem = components.Resistor(part_id=part_id, n1=n1, n2=n2, value=value)
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_capacitor(self, part_id, n1, n2, value, ic=None):
         """Adds a capacitor to the circuit.
 
@@ -536,6 +583,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_inductor(self, part_id, n1, n2, value, ic=None):
         """Adds an inductor to the circuit.
 
@@ -573,6 +621,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_inductor_coupling(self, part_id, L1, L2, value):
         """Add a coupling between two inductors.
 
@@ -611,6 +660,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_vsource(self, part_id, n1, n2, dc_value, ac_value=0, function=None):
         """Adds a voltage source to the circuit (also takes care that the nodes
         are added as well).
@@ -641,6 +691,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_isource(self, part_id, n1, n2, dc_value, ac_value=0, function=None):
         """Adds a current source to the circuit (also takes care that the nodes
         are added as well).
@@ -671,6 +722,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_diode(self, part_id, n1, n2, model_label, models=None, Area=None,
                   T=None, ic=None, off=False):
         """Adds a diode to the circuit (also takes care that the nodes
@@ -710,6 +762,7 @@ class Circuit(list):
         self.append(elem)
 
 
+    @_undo_nodes_on_error
     def add_mos(self, part_id, nd, ng, ns, nb, w, l, model_label, models=None,
                 m=1, n=1):
         """Adds a mosfet to the circuit (also takes care that the nodes
@@ -763,6 +816,7 @@ class Circuit(list):
         self.append(elem)
 
 
+    @_undo_nodes_on_error
     def add_cccs(self, part_id, n1, n2, source_id, value):
         """Adds a current-controlled current source (CCCS) to the circuit
 
@@ -801,6 +855,7 @@ class Circuit(list):
         # add it!
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_ccvs(self, part_id, n1, n2, source_id, value):
         """Adds a current-controlled voltage source (CCCS) to the circuit
 
@@ -841,6 +896,7 @@ class Circuit(list):
         # add it!
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_vcvs(self, part_id, n1, n2, sn1, sn2, value):
         """Adds a voltage-controlled voltage source (vcvs) to the circuit
 
@@ -877,6 +933,7 @@ class Circuit(list):
         self.append(elem)
 
 
+    @_undo_nodes_on_error
     def add_vccs(self, part_id, n1, n2, sn1, sn2, value):
         """Adds a voltage-controlled current source (VCCS) to the circuit
 
@@ -914,6 +971,7 @@ class Circuit(list):
 
         self.append(elem)
 
+    @_undo_nodes_on_error
     def add_switch(self, part_id, n1, n2, sn1, sn2, ic, model_label, models=None):
         """Adds a voltage-controlled or current-controlled switch to the circuit
 
@@ -1030,50 +1088,36 @@ class Circuit(list):
         else:
             # we got the element
             elem = elem_or_id
+        for e in self:
+            if isinstance(e, components.InductorCoupling) and e is not elem and \
+               elem.part_id in (e.L1, e.L2):
+                raise CircuitError("%s is coupled by %s, that should be removed first."
+                                   % (elem.part_id, e.part_id))
+
         self.remove(elem)
-        nodes = []
-        if hasattr(elem, 'n1') and elem.n1 != 0:
-            nodes = nodes + [elem.n1]
-        if hasattr(elem, 'n2') and elem.n2 != 0 and elem.n2 not in nodes:
-            nodes = nodes + [elem.n2]
-        if elem.is_nonlinear:
-            for n1, n2 in elem.ports:
-                if n1 != 0 and n1 not in nodes:
-                    nodes = nodes + [n1]
-                if n2 != 0 and n2 not in nodes:
-                    nodes = nodes + [n2]
-        # check if then nodes are needed by other elements
-        remove_list = copy.copy(nodes)
-        for n in nodes:
+
+        if isinstance(elem, components.InductorCoupling):
             for e in self:
-                if hasattr(elem, 'n1') and e.n1 == n or \
-                   hasattr(elem, 'n2') and e.n2 == n or \
-                   hasattr(elem, 'sn1') and e.sn1 == n or \
-                   hasattr(elem, 'sn2') and e.sn2 == n:
-                    remove_list.remove(n)
-                    break
-                if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    # check output ports
-                    for n1, n2 in oports:
-                        if n1 == n or n2 == n:
-                            remove_list.remove(n)
-                            break
-                    if n not in remove_list:
-                        break
-                    # check the ports that drive them
-                    for i in range(len(oports)):
-                        dports = elem.get_drive_ports(i)
-                        for n1, n2 in oports:
-                            if n1 == n or n2 == n:
-                                remove_list.remove(n)
-                                break
-                        if n not in remove_list:
-                            break
-
-        for n in remove_list:
-            self.nodes_dict.pop(self.nodes_dict[n])
-            self.nodes_dict.pop(n)
+                if elem in getattr(e, 'coupling_devices', ()):
+                    e.coupling_devices.remove(elem)
+
+        # check if the nodes are needed by other elements
+        needed = set()
+        for e in self:
+            needed.update(self._get_elem_nodes(e))
+        for n in self._get_elem_nodes(elem):
+            if n != 0 and n not in needed and n in self.nodes_dict:
+                self.nodes_dict.pop(self.nodes_dict[n])
+                self.nodes_dict.pop(n)
+
+    def _get_elem_nodes(self, elem):
+        """The set of the internal nodes to which the element is connected"""
+        nodes = set(getattr(elem, attr) for attr in ('n1', 'n2', 'sn1', 'sn2')
+                    if getattr(elem, attr, None) is not None)
+        if elem.is_nonlinear:
+            for port in elem.ports:
+                nodes.update(port)
+        return nodes
 
     def find_vde_index(self, elem_or_id, verbose=3):
         """Finds a voltage-defined element MNA index.
-- 
2.43.0


From b2806bbd6213fd9d64590e17b9533c5d5a49ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 19/64] fix: initial conditions on grounded or chained
 capacitors, zero values, node names and diodes

---
 ahkab/dc_analysis.py | 41 +++++++++++++++++++++++++++++------------
 ahkab/diode.py       |  2 +-
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index ff37d16..091a09b 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1118,8 +1118,8 @@ def build_x0_from_user_supplied_ic(circ, icdict):
 
     :raises ValueError: whenever a malformed ``icdict`` is supplied.
     """
-    Vregex = re.compile("V\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
-    Iregex = re.compile("I\s*\(\s*([a-z0-9]+)\s*\)", re.IGNORECASE | re.DOTALL)
+    Vregex = re.compile(r"\s*V\s*\(\s*([^\s(),]+)\s*\)\s*$", re.IGNORECASE)
+    Iregex = re.compile(r"\s*I\s*\(\s*([^\s(),]+)\s*\)\s*$", re.IGNORECASE)
     nv = circ.get_nodes_number()  # number of voltage variables
     voltage_defined_elem_names = \
         [elem.part_id.lower() for elem in circ
@@ -1128,12 +1128,14 @@ def build_x0_from_user_supplied_ic(circ, icdict):
     x0 = np.zeros((nv + ni, 1))
     for label in icdict.keys():
         value = icdict[label]
-        if Vregex.search(label):
-            ext_node = Vregex.findall(label)[0]
+        if Vregex.match(label):
+            ext_node = Vregex.match(label).group(1)
+            if ext_node not in circ.nodes_dict:
+                raise ValueError("Unknown node in " + label)
             int_node = circ.ext_node_to_int(ext_node)
             x0[int_node, 0] = value
-        elif Iregex.search(label):
-            element_name = Iregex.findall(label)[0]
+        elif Iregex.match(label):
+            element_name = Iregex.match(label).group(1)
             index = voltage_defined_elem_names.index(element_name.lower())
             x0[nv + index, 0] = value
         else:
@@ -1186,15 +1188,30 @@ def modify_x0_for_ic(circ, x0):
     voltage_defined_elements = [
         x for x in circ if circuit.is_elem_voltage_defined(x)]
 
-    # setup voltages this may _not_ work properly
-    for elem in circ:
-        if isinstance(elem, components.Capacitor) and elem.ic or \
-                isinstance(elem, diode.diode) and elem.ic:
-            x0[elem.n1 - 1, 0] = x0[elem.n2 - 1, 0] + elem.ic
+    # setup voltages: start from the nodes whose voltage is known
+    pending = [elem for elem in circ
+               if isinstance(elem, (components.Capacitor, diode.diode)) and
+               elem.ic is not None]
+    known = set([0])
+    while len(pending):
+        for elem in pending:
+            if elem.n1 in known or elem.n2 in known:
+                break
+        else:
+            elem = pending[0]
+        pending.remove(elem)
+        if elem.n1 not in known:
+            vn2 = x0[elem.n2 - 1, 0] if elem.n2 else 0.
+            x0[elem.n1 - 1, 0] = vn2 + elem.ic
+        elif elem.n2 not in known:
+            vn1 = x0[elem.n1 - 1, 0] if elem.n1 else 0.
+            x0[elem.n2 - 1, 0] = vn1 - elem.ic
+        # otherwise, the voltage is already set by other elements
+        known.update((elem.n1, elem.n2))
 
     # setup the currents
     for elem in voltage_defined_elements:
-        if isinstance(elem, components.Inductor) and elem.ic:
+        if isinstance(elem, components.Inductor) and elem.ic is not None:
             x0[nv - 1 + voltage_defined_elements.index(elem), 0] = elem.ic
 
     if return_obj:
diff --git a/ahkab/diode.py b/ahkab/diode.py
index f031bba..c5aec3e 100644
--- a/ahkab/diode.py
+++ b/ahkab/diode.py
@@ -93,7 +93,7 @@ class diode(object):
 
         if ic is not None:  # fixme
             print("(W): ic support in diodes is very experimental.")
-            self.dc_guess = ic
+            self.dc_guess = [ic]
         self.ic = ic
         self.off = off
         if self.off:
-- 
2.43.0


From f9bbf0bc527e192aa9e0a640be641c8f501a92c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 20/64] fix: starting points of analyses are kept per circuit
 and looked up when the analysis runs

---
 ahkab/ahkab.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index dba42cc..ac174aa 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -151,6 +151,7 @@ import copy
 import os
 import sys
 import tempfile
+import weakref
 
 from optparse import OptionParser
 
@@ -196,7 +197,8 @@ global _queue, _x0s, _print
 
 _queue = []
 _print = False
-_x0s = {None: None}
+# for each circuit, its known starting points
+_x0s = []
 
 def new_op(guess=None, x0=None, outfile=None, verbose=0):
     """Assembles an OP analysis and returns the analysis object.
@@ -716,15 +718,16 @@ def run(circ, an_list=None):
         an_item = an_list.pop(0)
         an_type = an_item.pop('type')
         if 'x0' in an_item and isinstance(an_item['x0'], text_type):
-            printing.print_warning("%s has x0 set to %s, unavailable. Using 'None'." %
-                                   (an_type.upper(), an_item['x0']))
-            an_item['x0'] = None
+            x0 = _get_x0s(circ).get(an_item['x0'], None)
+            if x0 is None:
+                printing.print_warning("%s has x0 set to %s, unavailable. Using 'None'." %
+                                       (an_type.upper(), an_item['x0']))
+            an_item['x0'] = x0
         r = analysis[an_type](circ, **an_item)
         results.update({an_type: r})
         if an_type == 'op':
-            _x0s.update({'op': r})
-            _x0s.update({'op+ic': icmodified_x0(circ, r)})
-            _handle_netlist_ics(circ, an_list, ic_list=[])
+            _get_x0s(circ).update({'op': r})
+            _get_x0s(circ).update({'op+ic': None if r is None else icmodified_x0(circ, r)})
     return results
 
 
@@ -800,7 +803,7 @@ def get_op_x0(circ):
     x0 : an OP solution object
         The linearization point.
     """
-    return run(circ, [new_op()])
+    return run(circ, [new_op()])['op']
 
 
 def set_temperature(T):
@@ -967,16 +970,26 @@ def main(filename, outfile="stdout", verbose=3):
     return results
 
 
+def _get_x0s(circ):
+    """The operating points and the initial conditions known for a circuit"""
+    _x0s[:] = [(ref, x0s) for ref, x0s in _x0s if ref() is not None]
+    for ref, x0s in _x0s:
+        if ref() is circ:
+            return x0s
+    _x0s.append((weakref.ref(circ), {}))
+    return _x0s[-1][1]
+
+
 def _handle_netlist_ics(circ, an_list, ic_list):
     for ic in ic_list:
         ic_label = list(ic.keys())[0]
         icdict = ic[ic_label]
-        _x0s.update({ic_label: new_x0(circ, icdict)})
+        _get_x0s(circ).update({ic_label: new_x0(circ, icdict)})
     for an in an_list:
         if 'x0' in an and isinstance(an['x0'], text_type):
-            if an['x0'] in list(_x0s.keys()):
-                an['x0'] = _x0s[an['x0']]
-            elif an_list.index(an) == 0:
+            if an['x0'] in _get_x0s(circ):
+                an['x0'] = _get_x0s(circ)[an['x0']]
+            else:
                 raise ValueError(("The x0 '%s' is not available." % an["x0"]) +\
                                  (an['x0'] == 'op' or an['x0'] == 'op+ic')*
                                  " Perhaps you forgot to define an .OP?")
-- 
2.43.0


From 99a06b7318d22ccac07f4a6cf60b1cd75b260d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 21/64] fix: pulse delay longer than a period, PWL outside its
 points, AM without delay, sine phase in netlists

---
 ahkab/time_functions.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index bd53e69..36246ef 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -153,7 +153,7 @@ import math
 
 from scipy.interpolate import InterpolatedUnivariateSpline
 
-time_fun_specs = {'sin': { #VO VA FREQ TD THETA
+time_fun_specs = {'sin': { #VO VA FREQ TD THETA PHASE
     'tokens': ({
                'label': 'vo',
                'pos': 0,
@@ -193,6 +193,14 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'needed': False,
                'dest': 'theta',
                'default': 0
+               },
+               {
+               'label': 'phase',
+               'pos': 5,
+               'type': float,
+               'needed': False,
+               'dest': 'phi',
+               'default': 0.
                }
                )
         },'exp': { #EXP(V1 V2 TD1 TAU1 TD2 TAU2)
@@ -323,7 +331,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'label': 'fc',
                'pos': 2,
                'type': float,
-               'needed': False,
+               'needed': True,
                'dest': 'fc',
                'default': None
                },
@@ -390,7 +398,7 @@ time_fun_specs = {'sin': { #VO VA FREQ TD THETA
                'type': float,
                'needed': False,
                'dest': 'td',
-               'default': None
+               'default': 0.
                })
         }
 }
@@ -440,15 +448,17 @@ class pulse(object):
         """Evaluate the pulse function at the given time."""
         if time is None:
             time = 0
-        time = time - self.per * int(time / self.per)
-        if time < self.td:
+        time = time - self.td
+        if time < 0:
+            # the delay comes before the first ramp only
             return self.v1
-        elif time < self.td + self.tr:
-            return self.v1 + ((self.v2 - self.v1) / (self.tr)) * (time - self.td)
-        elif time < self.td + self.tr + self.pw:
+        time = time - self.per * int(time / self.per)
+        if time < self.tr:
+            return self.v1 + ((self.v2 - self.v1) / (self.tr)) * time
+        elif time < self.tr + self.pw:
             return self.v2
-        elif time < self.td + self.tr + self.pw + self.tf:
-            return self.v2 + ((self.v1 - self.v2) / (self.tf)) * (time - (self.td + self.tr + self.pw))
+        elif time < self.tr + self.pw + self.tf:
+            return self.v2 + ((self.v1 - self.v2) / (self.tf)) * (time - (self.tr + self.pw))
         else:
             return self.v1
 
@@ -528,7 +538,7 @@ class sin(object):
             self._type.lower() + "o=" + str(self.vo) + " " + \
             self._type.lower() + "a=" + str(self.va) + \
             " freq=" + str(self.freq) + " theta=" + str(self.theta) + \
-            " td=" + str(self.td)
+            " td=" + str(self.td) + " phase=" + str(self.phi)
 
 
 class exp(object):
@@ -803,7 +813,8 @@ class pwl(object):
             self.repeat_time = 0
         self.td = td
         self._type = "V"
-        self._f = InterpolatedUnivariateSpline(self.x, self.y, k=1)
+        self._f = InterpolatedUnivariateSpline(self.x, self.y, k=1,
+                                               ext='const')
 
     def __call__(self, time):
         """Evaluate the PWL function at the given time."""
-- 
2.43.0


From ec8532b03055e4e1f6dfc0c06d7392ab0ec5688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:49 +0000
Subject: [PATCH 22/64] fix: time functions in netlists: optional parameters
 left out, delays of SFFM, i-labels of current sources, values that are not
 numbers

---
 ahkab/netlist_parser.py | 86 +++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index d67cbd0..8edfbee 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -572,33 +572,25 @@ def parse_elem_vsource(line, circ):
         label, value = parse_param_value_from_string(line_elements[index])
 
         if label == 'type':
-            if value == 'vdc':
-                param_number = 0
-            elif value == 'vac':
-                param_number = 0
-            elif value == 'pulse':
-                param_number = 7
-            elif value == 'exp':
-                param_number = 6
-            elif value == 'sin':
-                param_number = 5
-            elif value == 'sffm':
-                param_number = 5
-            elif value == 'am':
-                param_number = 5
-            else:
-                raise NetlistParseError("parse_elem_vsource(): unknown signal" +
+            if value == 'vdc' or value == 'vac':
+                pass
+            elif value not in time_functions:
+                raise NetlistParseError("parse_elem_vsource(): unknown signal " +
                                         "type %s" % value)
-            if param_number and function is None:
-                function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number
-                                                             + 1],
-                                               "voltage")
-                index = index + param_number
-                # continue
             elif function is not None:
                 raise NetlistParseError("parse_elem_vsource(): only a time function can be defined.")
+            else:
+                # the parameters of the function end where the next section
+                # of the line begins
+                first = index + 1
+                while index + 1 < len(line_elements) and \
+                      line_elements[index + 1][0] != '*' and \
+                      parse_param_value_from_string(line_elements[index + 1])[0] \
+                      not in ('type', 'vdc', 'vac'):
+                    index = index + 1
+                function = parse_time_function(value,
+                                               line_elements[first:index + 1],
+                                               "voltage")
         elif label == 'vdc':
             dc_value = convert_units(value)
         elif label == 'vac':
@@ -661,30 +653,25 @@ def parse_elem_isource(line, circ):
         (label, value) = parse_param_value_from_string(line_elements[index])
 
         if label == 'type':
-            if value == 'idc':
-                param_number = 0
-            elif value == 'iac':
-                param_number = 0
-            elif value == 'pulse':
-                param_number = 7
-            elif value == 'exp':
-                param_number = 6
-            elif value == 'sin':
-                param_number = 5
-            elif value == 'sffm':
-                param_number = 5
-            elif value == 'am':
-                param_number = 5
+            if value == 'idc' or value == 'iac':
+                pass
+            elif value not in time_functions:
+                raise NetlistParseError("parse_elem_isource(): unknown signal " +
+                                        "type %s" % value)
+            elif function is not None:
+                raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
             else:
-                raise NetlistParseError("parse_elem_isource(): unknown signal type.")
-            if param_number and function is None:
+                # the parameters of the function end where the next section
+                # of the line begins
+                first = index + 1
+                while index + 1 < len(line_elements) and \
+                      line_elements[index + 1][0] != '*' and \
+                      parse_param_value_from_string(line_elements[index + 1])[0] \
+                      not in ('type', 'idc', 'iac'):
+                    index = index + 1
                 function = parse_time_function(value,
-                                               line_elements[index + 1:
-                                                             index + param_number + 1],
+                                               line_elements[first:index + 1],
                                                "current")
-                index = index + param_number
-            elif function is not None:
-                raise NetlistParseError("parse_elem_isource(): only a time function can be defined.")
         elif label == 'idc':
             dc_value = convert_units(value)
         elif label == 'iac':
@@ -1207,12 +1194,19 @@ def parse_time_function(ftype, line_elements, stype):
             break
         if is_valid_value_param_string(token):
             (label, value) = token.split('=')
+            if stype.lower() == "current" and label[:1] == 'i':
+                # in current sources, vo becomes io, va becomes ia and so on
+                label = 'v' + label[1:]
         else:
             label, value = None, token
         assigned = False
         for t in prot_params:
             if (label is None and t['pos'] == i) or label == t['label']:
-                fun_params.update({t['dest']: convert(value, t['type'])})
+                try:
+                    value = convert(value, t['type'], raise_exception=True)
+                except ValueError as msg:
+                    raise NetlistParseError("%s: %s" % (ftype, msg))
+                fun_params.update({t['dest']: value})
                 assigned = True
                 break
         if assigned:
-- 
2.43.0


From 8cdf567abf61b6c9bd940820556587223225f714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 23/64] fix: EKV model type, threshold from VFB, out of range
 MOS parameters are value errors

---
 ahkab/ekv.py  | 13 +++++++++----
 ahkab/mosq.py |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 8d397db..d1ddf15 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -167,7 +167,7 @@ class ekv_device:
 
         devcheck, reason = self.ekv_model._device_check(self.device)
         if not devcheck:
-            raise Exception(reason + " out of boundaries.")
+            raise ValueError(reason + " out of boundaries.")
 
     def get_drive_ports(self, op):
         """Returns a tuple of tuples of ports nodes, as:
@@ -374,7 +374,12 @@ class ekv_mos_model:
 
         self.name = "model_ekv0" if name is None else name
         self.TNOM = float(TNOM) if TNOM is not None else constants.Tref
-        self.NPMOS = 1 if TYPE == 'n' else -1
+        if TYPE.lower() == 'n':
+            self.NPMOS = 1
+        elif TYPE.lower() == 'p':
+            self.NPMOS = -1
+        else:
+            raise ValueError("Unknown MOS type %s" % TYPE)
 
         # optional parameters (no defaults)
         self.TOX = float(TOX) if TOX is not None else None
@@ -410,7 +415,7 @@ class ekv_mos_model:
                 printing.print_warning("model %s has internal negative VTO (%f V)."
                                        % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * self.PHI  # inv here??
         else:
             self.VTO = VTO_DEFAULT
 
@@ -438,7 +443,7 @@ class ekv_mos_model:
 
         sc, sc_reason = self._self_check()
         if not sc:
-            raise Exception(sc_reason + " out of range")
+            raise ValueError(sc_reason + " out of range")
 
     def set_device_temperature(self, T):
         """Change the temperature of the device.
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 468ce33..2cfbb44 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -477,7 +477,7 @@ class mosq_mos_model(object):
             if self.VTO < 0:
                 print("(W): model %s has internal negative VTO (%f V)." % (self.name, self.VTO))
         elif VFB is not None:
-            self.VTO = VFB + PHI + GAMMA * PHI  # inv here??
+            self.VTO = self.VFB + self.PHI + self.GAMMA * self.PHI  # inv here??
         else:
             self.VTO = VTO_DEFAULT
 
@@ -502,7 +502,7 @@ class mosq_mos_model(object):
 
         sc, sc_reason = self._self_check()
         if not sc:
-            raise Exception(sc_reason + " out of range")
+            raise ValueError(sc_reason + " out of range")
         self.T1 = np.array(((0, 0, 1, 0),
                             (0, 1, 0, 0),
                             (1, 0, 0, 0),
-- 
2.43.0


From d001cc8fe36d3754853e157b90bfa43a0feca1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 24/64] fix: malformed netlist lines, models and directives are
 refused with a parse error; comments, includes, names in subcircuits

---
 ahkab/circuit.py        |   1 +
 ahkab/netlist_parser.py | 197 ++++++++++++++++++++++++++++------------
 2 files changed, 138 insertions(+), 60 deletions(-)

diff --git a/ahkab/circuit.py b/ahkab/circuit.py
index d887d57..b96c12c 100644
--- a/ahkab/circuit.py
+++ b/ahkab/circuit.py
@@ -1295,6 +1295,7 @@ class _circuit_wrapper:
 
     def __init__(self, circ, connection_nodes_dict, subckt_name, subckt_label):
         self.circ = circ
+        self.subckt_name = subckt_name
         self.prefix = subckt_label + "-" + subckt_name + "-"
         self.subckt_node_filter_dict = {}
         self.subckt_node_filter_dict.update(connection_nodes_dict)
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 8edfbee..7889fb6 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -164,10 +164,12 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
     else:
         buf = ""
         for aline in sys.stdin:
-            buf += aline + "\n"
+            buf += aline
         ffile = StringIO(buf)
 
-    file_list = [(ffile, "unknown", not read_netlist_from_stdin)]
+    if filename is None:
+        filename = ""
+    file_list = [[ffile, filename, not read_netlist_from_stdin, ()]]
     netlist_wd = os.path.split(filename)[0]
     file_index = 0
     directives = []
@@ -186,7 +188,8 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                 if len(line) == 0:
                     break  # check for EOF
                 line_n = line_n + 1
-                line = line.strip().lower()
+                raw_line = line.strip()
+                line = raw_line.lower()
                 if line_n == 1:
                     # the first line is always the title
                     circ.title = line
@@ -215,8 +218,15 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                         subckts_list_temp.append(current_subckt_temp)
                         current_subckt_temp = []
                     elif line_elements[0] == '.include':
-                        file_list.append(
-                            parse_include_directive(line, netlist_wd))
+                        # file names are case sensitive
+                        new_file = parse_include_directive(raw_line, netlist_wd)
+                        # a file can't include itself, also indirectly
+                        callers = file_list[file_index][3] + \
+                                  (os.path.abspath(file_list[file_index][1]),)
+                        if os.path.abspath(new_file[1]) in callers:
+                            raise NetlistParseError("recursive .include of %s" %
+                                                    new_file[1])
+                        file_list.append(new_file + [callers])
                     elif line_elements[0] == ".end":
                         break
                     elif line_elements[0] == ".plot":
@@ -271,6 +281,14 @@ def parse_circuit(filename, read_netlist_from_stdin=False):
                 subckt_obj.name + " has been redefined")
 
     circ += main_netlist_parser(circ, netlist_lines, subckts_dict, models)
+    vsources = [e.part_id for e in circ
+                if circuit.is_elem_voltage_defined(e)]
+    for e in circ:
+        if isinstance(e, (components.sources.FISource,
+                          components.sources.HVSource)) and \
+           e.source_id not in vsources:
+            raise NetlistParseError("%s: the sensing source %s was not found." %
+                                    (e.part_id, e.source_id))
     circ.models = models
     return (circ, directives, postproc)
 
@@ -300,11 +318,14 @@ def main_netlist_parser(circ, netlist_lines, subckts_dict, models):
             # appropriate parsing function
             # we always use normal convention V opposite to I
             # n1 is +, n2 is -, current flows from + to -
-            try:
-                elements += parse_function[line[0]](line)
-            except KeyError:
+            if line[0] not in parse_function:
                 raise NetlistParseError("Parser: do not know how to parse" +
                                         " '%s' elements." % line[0])
+            try:
+                elements += parse_function[line[0]](_strip_comment(line))
+            except ValueError as ve:
+                # invalid numbers and out of range values
+                raise NetlistParseError(str(ve))
     #   Handle errors from individual parse functions
     except NetlistParseError as npe:
         (msg,) = npe.args
@@ -316,6 +337,16 @@ def main_netlist_parser(circ, netlist_lines, subckts_dict, models):
     return elements
 
 
+def _strip_comment(line):
+    """The line without the comment that may follow its fields."""
+    line_elements = line.split()
+    for index, token in enumerate(line_elements):
+        if token[0] == '*':
+            line_elements = line_elements[:index]
+            break
+    return ' '.join(line_elements)
+
+
 def get_next_file_and_close_current(file_list, file_index):
     if file_list[file_index - 1][2]:
         file_list[file_index - 1][0].close()
@@ -342,26 +373,37 @@ def parse_models(models_lines):
             if tokens[index][0] == "*":
                 break
             (label, value) = parse_param_value_from_string(tokens[index])
+            if label != 'type':
+                try:
+                    value = convert_units(value)
+                except ValueError as ve:
+                    raise NetlistParseError("parse_models(): %s on line %s.\n\t%s" %
+                                            (ve, line_n, line))
             model_parameters.update({label.upper(): value})
-        if model_type == "ekv":
-            model_iter = ekv.ekv_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "mosq":
-            model_iter = mosq.mosq_mos_model(**model_parameters)
-            model_iter.name = model_label
-        elif model_type == "diode" or model_type == 'd':
-            model_parameters.update({'name': model_label})
-            model_iter = diode.diode_model(**model_parameters)
-        elif model_type == "sw":
-            model_parameters.update({'name': model_label})
-            model_iter = switch.vswitch_model(**model_parameters)
-        # elif model_type == "csw":
-        #   model_parameters.update({'name':model_label})
-        #   model_iter = switch.iswitch_model(**model_parameters)
-        else:
-            raise NetlistParseError("parse_models(): Unknown model (" +
-                                    model_type + ") on line " + str(line_n) +
-                                    ".\n\t" + line,)
+        try:
+            if model_type == "ekv":
+                model_iter = ekv.ekv_mos_model(**model_parameters)
+                model_iter.name = model_label
+            elif model_type == "mosq":
+                model_iter = mosq.mosq_mos_model(**model_parameters)
+                model_iter.name = model_label
+            elif model_type == "diode" or model_type == 'd':
+                model_parameters.update({'name': model_label})
+                model_iter = diode.diode_model(**model_parameters)
+            elif model_type == "sw":
+                model_parameters.update({'name': model_label})
+                model_iter = switch.vswitch_model(**model_parameters)
+            # elif model_type == "csw":
+            #   model_parameters.update({'name':model_label})
+            #   model_iter = switch.iswitch_model(**model_parameters)
+            else:
+                raise NetlistParseError("parse_models(): Unknown model (" +
+                                        model_type + ") on line " + str(line_n) +
+                                        ".\n\t" + line,)
+        except (TypeError, ValueError, ArithmeticError) as e:
+            # unknown, missing or out of range parameters
+            raise NetlistParseError("parse_models(): %s on line %s.\n\t%s" %
+                                    (e, line_n, line))
         models.update({model_label: model_iter})
     return models
 
@@ -420,8 +462,7 @@ def parse_elem_capacitor(line, circ):
     """
     line_elements = line.split()
     if len(line_elements) < 4 or \
-       (len(line_elements) > 5 and not line_elements[5][0] == "*" and
-        not line_elements[4][0] == "*"):
+       (len(line_elements) > 5 and not line_elements[5][0] == "*"):
         raise NetlistParseError("parse_elem_capacitor(): malformed line")
 
     ic = None
@@ -460,7 +501,7 @@ def parse_elem_inductor(line, circ):
         A list containing a :class:`ahkab.components.Inductor` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 5 and not line_elements[6][0] == "*"):
+    if len(line_elements) < 4 or (len(line_elements) > 5 and not line_elements[5][0] == "*"):
         raise NetlistParseError("parse_elem_inductor(): malformed line")
 
     ic = None
@@ -499,7 +540,7 @@ def parse_elem_inductor_coupling(line, circ, elements=[]):
         A list containing a :class:`ahkab.components.InductorCoupling` element.
     """
     line_elements = line.split()
-    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[5][0] == "*"):
+    if len(line_elements) < 4 or (len(line_elements) > 4 and not line_elements[4][0] == "*"):
         raise NetlistParseError("parse_elem_inductor_coupling(): malformed line")
 
     part_id = line_elements[0]
@@ -737,15 +778,14 @@ def parse_elem_diode(line, circ, models=None):
             break
         param, value = parse_param_value_from_string(line_elements[index])
 
-        value = convert_units(value)
         if param == "area":
-            Area = value
+            Area = convert_units(value)
         elif param == "t":
-            T = value
+            T = convert_units(value)
         elif param == "ic":
-            ic = value
+            ic = convert_units(value)
         elif param == "off":
-            if not len(value):
+            if value == "":
                 off = True
             else:
                 off = convert_boolean(value)
@@ -759,8 +799,10 @@ def parse_elem_diode(line, circ, models=None):
 
     if model_label not in models:
         raise NetlistParseError("parse_elem_diode(): Unknown model id: " + model_label)
+    if not isinstance(models[model_label], diode.diode_model):
+        raise NetlistParseError("parse_elem_diode(): Not a diode model: " + model_label)
     elem = diode.diode(part_id=line_elements[0], n1=n1, n2=n2, model=models[
-                       model_label], AREA=Area, ic=ic, off=off)
+                       model_label], AREA=Area, T=T, ic=ic, off=off)
     return [elem]
 
 
@@ -1310,6 +1352,9 @@ def parse_postproc(circ, postproc_direc):
 
         try:
             line_elements = line.split()
+            if len(line_elements) < 2:
+                raise NetlistParseError("%s: required parameters are missing" %
+                                        line_elements[0])
             # plot
             if line_elements[0] == ".plot":
                 plot_postproc = {}
@@ -1320,15 +1365,17 @@ def parse_postproc(circ, postproc_direc):
                         plot_postproc["analysis"] == "ac" or
                         plot_postproc["analysis"] == "dc"
                         ):
-                    printing.print_general_error("Plotting is unsupported for" +
-                                                 "analysis type " +
-                                                 plot_postproc["analysis"])
+                    raise NetlistParseError("Plotting is unsupported for" +
+                                            " analysis type " +
+                                            plot_postproc["analysis"])
 
                 graph_labels = ""
                 for glabel in line_elements[2:]:
                     graph_labels = graph_labels + " " + glabel
 
-                l2l1 = plotting._split_netlist_label(graph_labels)
+                # one label or two per plot
+                l2l1 = [tuple(l) if len(l) == 2 else (l[0], None) for l in
+                        plotting._split_netlist_label(graph_labels)]
 
                 if plot_postproc["analysis"] == "ac":
                     l2l1ac = []
@@ -1374,7 +1421,7 @@ def parse_postproc(circ, postproc_direc):
                     assigned = False
                     for t in params:
                         if (label is None and t['pos'] == i) or label == t['label']:
-                            fpv.update({t['dest']: convert(value, t['type'])})
+                            fpv.update({t['dest']: convert(value, t['type'], raise_exception=True)})
                             assigned = True
                             break
                     if assigned:
@@ -1382,7 +1429,7 @@ def parse_postproc(circ, postproc_direc):
                         continue
                     else:
                         raise NetlistParseError("Unknown .%s parameter: pos %d (%s=)%s" % \
-                                                 (fpv[type].upper(), i, label, value))
+                                                 (fpv['type'].upper(), i, label, value))
                 # is there anything required which is missing?
                 missing = []
                 for t in params:
@@ -1400,8 +1447,8 @@ def parse_postproc(circ, postproc_direc):
             else:
                 raise NetlistParseError("Unknown postproc directive %s." %
                                         line_elements[0])
-        except NetlistParseError as npe:
-            (msg,) = npe.args
+        except (NetlistParseError, ValueError) as npe:
+            msg = str(npe)
             if len(msg):
                 printing.print_general_error(msg)
             printing.print_parse_error(line_n, line)
@@ -1414,7 +1461,7 @@ def parse_ics(directives):
     for line, line_n in directives:
         if line[0] != '.':
             continue
-        if line[:3] == '.ic':
+        if line.split()[0] == '.ic':
             ics += [parse_ic_directive(line)]
     return ics
 
@@ -1437,9 +1484,8 @@ def parse_analysis(circ, directives):
     """
     an = []
     for line, line_n in directives:
-        if line[0] != '.' or line[:3] == '.ic':
+        if line[0] != '.' or line.split()[0] == '.ic':
             continue
-        line_elements = line.split()
         an += [parse_single_analysis(line)]
     return an
 
@@ -1494,7 +1540,11 @@ def parse_single_analysis(line):
         assigned = False
         for t in params:
             if (label is None and t['pos'] == i) or label == t['label']:
-                an.update({t['dest']: convert(value, t['type'])})
+                try:
+                    value = convert(value, t['type'], raise_exception=True)
+                except ValueError as msg:
+                    raise NetlistParseError(".%s: %s" % (an_type.upper(), msg))
+                an.update({t['dest']: value})
                 assigned = True
                 break
         if assigned:
@@ -1517,7 +1567,7 @@ def parse_single_analysis(line):
 
     # ad-hoc code for tran ... :(
     if an['type'] == 'tran':
-        uic = int(an.pop('uic'))
+        uic = an.pop('uic')
         if uic == 0:
             an['x0'] = None
         elif uic == 1:
@@ -1525,9 +1575,11 @@ def parse_single_analysis(line):
         elif uic == 2:
             an['x0'] = 'op+ic'
         elif uic == 3:
-            pass  # already set by ic_label
+            # already set by ic_label
+            if not an['x0']:
+                raise NetlistParseError("UIC=3 requires IC_LABEL to be set.")
         else:
-            raise NetlistParseError("Unknown UIC value: %d" % uic)
+            raise NetlistParseError("Unknown UIC value: %g" % uic)
     # ... and pz :(
     if an['type'] == 'pz':
         an.update({'x0':'op'})
@@ -1657,7 +1709,7 @@ def convert_boolean(value):
     elif value == 'yes' or value == 'true' or value == '1' or value == 1:
         return_value = True
     else:
-        raise NetlistParseError("invalid boolean: " + value)
+        raise NetlistParseError("invalid boolean: %s" % value)
 
     return return_value
 
@@ -1680,7 +1732,10 @@ def parse_ic_directive(line):
         # V(node)=10u
         # or something like:
         # I(Vtest)=100e-6
-        ic_dict.update({label: convert_units(value)})
+        try:
+            ic_dict.update({label: convert_units(value)})
+        except ValueError as msg:
+            raise NetlistParseError(".ic: %s" % msg)
         # We may decide to check if the node exists and/or if the syntax
         # is correct and raise NetlistParseError if needed.
 
@@ -1703,6 +1758,8 @@ def parse_sub_declaration(subckt_lines):
             if line_elements[0] != '.subckt':
                 raise RuntimeError("BUG? parse_sub_declaration() \
                 called on non-subckt text. (line" + str(line_n) + ")")
+            if len(line_elements) < 2 or line_elements[1][0] == '*':
+                raise NetlistParseError(".subckt without a name (line %s)" % line_n)
             name = line_elements[1]
             for node_name in line_elements[2:]:
                 if node_name[0] == '0':
@@ -1712,6 +1769,9 @@ def parse_sub_declaration(subckt_lines):
                 if node_name[0] == '*':
                     break
                 else:
+                    if node_name in connected_nodes_list:
+                        raise NetlistParseError("subckt " + name + " has two " +
+                                                "connection nodes named " + node_name)
                     connected_nodes_list = connected_nodes_list + [node_name]
         else:
             netlist_lines = netlist_lines + [(line, "")]
@@ -1745,6 +1805,10 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
         param, value = parse_param_value_from_string(line_elements[index],
                                                      rtype=str)
+        if not value:
+            raise NetlistParseError("malformed subckt call: " + line_elements[index])
+        if param in param_value_dict:
+            raise NetlistParseError(param + " is repeated in subckt call")
         param_value_dict.update({param:value})
 
     if "name" not in param_value_dict:
@@ -1755,6 +1819,11 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
     name = param_value_dict['name']
     subckt = subckts_dict[name]
+    caller = circ
+    while isinstance(caller, circuit._circuit_wrapper):
+        if caller.subckt_name == name:
+            raise NetlistParseError("subckt " + name + " contains itself")
+        caller = caller.circ
     connection_nodes_dict = {}
 
     for param, value in param_value_dict.items():
@@ -1778,9 +1847,17 @@ def parse_sub_instance(line, circ, subckts_dict, models=None):
 
     # Every subckt adds elements with the _same description_ (elem.part_id[1:])
     # We modify it so that each description is unique for every instance
+    new_ids = {}
     for element in elements_list:
-        element.part_id = element.part_id[0] + \
-                          "-" + wrapped_circ.prefix + element.part_id[1:]
+        new_ids[element.part_id] = element.part_id[0] + "-" + \
+                                   wrapped_circ.prefix + element.part_id[1:]
+        element.part_id = new_ids[element.part_id]
+    # the elements that refer to others by name follow
+    for element in elements_list:
+        for attr in ('source_id', 'L1', 'L2'):
+            if hasattr(element, attr):
+                ref = getattr(element, attr)
+                setattr(element, attr, new_ids.get(ref, ref))
 
     return elements_list
 
@@ -1798,10 +1875,10 @@ def parse_include_directive(line, netlist_wd):
         # the user did not specify the full path.
         # the path is then assumed to be relative to the netlist location
         path = os.path.join(netlist_wd, path)
-    if not utilities.check_file(path):
-        raise RuntimeError("")
-
-    fnew = open(path, "r")
+    if not os.path.isfile(path) and os.path.isfile(path.lower()):
+        path = path.lower()
+    if not os.path.isfile(path):
+        raise NetlistParseError(".include: %s not found." % path)
 
     return [None, path, True]
 
-- 
2.43.0


From f3dd27f16ba07e094ec0f943bc592d9ed1afbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 25/64] fix: a zero EKV width or length is a value error;
 directive names with extra dots are refused

---
 ahkab/ekv.py            | 7 +++----
 ahkab/netlist_parser.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index d1ddf15..259dce0 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -152,6 +152,9 @@ class ekv_device:
         self.device.M = int(M)  # parallel multiple device number
         self.device.N = int(N)  # series multiple device number
         self.ekv_model = model
+        devcheck, reason = self.ekv_model._device_check(self.device)
+        if not devcheck:
+            raise ValueError(reason + " out of boundaries.")
         self.opdict = {}
         self.opdict.update(
             {'state': (float('nan'), float('nan'), float('nan'))})
@@ -165,10 +168,6 @@ class ekv_device:
         self.dc_guess = [self.ekv_model.VTO * (
             0.1) * self.ekv_model.NPMOS, self.ekv_model.VTO * (1.1) * self.ekv_model.NPMOS, 0]
 
-        devcheck, reason = self.ekv_model._device_check(self.device)
-        if not devcheck:
-            raise ValueError(reason + " out of boundaries.")
-
     def get_drive_ports(self, op):
         """Returns a tuple of tuples of ports nodes, as:
         (port0, port1, port2...)
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 7889fb6..96ab5ab 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1523,7 +1523,7 @@ def parse_single_analysis(line):
     :raises NetlistParseError: if the analysis is not parsed correctly.
     """
     line_elements = line.split()
-    an_type = line_elements[0].replace(".", "").lower()
+    an_type = line_elements[0][1:].lower()
     if not an_type in specs:
         raise NetlistParseError("Unknown directive: %s" % an_type)
     params = list(copy.deepcopy(specs[an_type]['tokens']))
-- 
2.43.0


From ea16878056ae227f98f1b4c7c18046999ea1877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 26/64] fix: printed netlist lines can be read back: source
 values, initial conditions, MOS and switch lines

---
 ahkab/components/Component.py       |  5 ++++-
 ahkab/components/Inductor.py        |  2 +-
 ahkab/components/sources/ISource.py | 14 ++++++++------
 ahkab/components/sources/VSource.py | 10 ++++++----
 ahkab/ekv.py                        |  5 ++---
 ahkab/mosq.py                       |  5 ++---
 ahkab/switch.py                     |  5 ++---
 ahkab/time_functions.py             |  4 ++--
 8 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/ahkab/components/Component.py b/ahkab/components/Component.py
index 1d25a32..8ce391b 100644
--- a/ahkab/components/Component.py
+++ b/ahkab/components/Component.py
@@ -178,5 +178,8 @@ class Component(object):
         ntlst_line : string
             The netlist line.
         """
-        return "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
+        line = "%s %s %s %g" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], self.value)
+        if getattr(self, 'ic', None) is not None:
+            line += " ic=%g" % self.ic
+        return line
diff --git a/ahkab/components/Inductor.py b/ahkab/components/Inductor.py
index c2ca6d2..656ba12 100644
--- a/ahkab/components/Inductor.py
+++ b/ahkab/components/Inductor.py
@@ -120,7 +120,7 @@ class InductorCoupling(Component):
         self.is_symbolic = True
 
     def __str__(self):
-        return "%s %s %g" % (self.L1, self.L2, self.value)
+        return "%s %s %g" % (self.L1, self.L2, self.K)
 
     def get_other_inductor(self, Lselected):
         Lret = None
diff --git a/ahkab/components/sources/ISource.py b/ahkab/components/sources/ISource.py
index 8bcffed..39824f1 100644
--- a/ahkab/components/sources/ISource.py
+++ b/ahkab/components/sources/ISource.py
@@ -61,10 +61,11 @@ class ISource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            sign = "-" if abs(self.arg_ac) > np.pi/2 else ""
+            rep = rep + "iac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -116,10 +117,11 @@ class ISource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=idc value=" + str(self.dc_value) + " "
+            rep = rep + "type=idc idc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
-            rep = rep + "iac=" + \
-                str(self.abs_ac) + " " + "arg=" + str(self.arg_ac) + " "
+            #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
+            sign = "-" if abs(self.arg_ac) > np.pi/2 else ""
+            rep = rep + "iac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/components/sources/VSource.py b/ahkab/components/sources/VSource.py
index 70e5cc2..151a8af 100644
--- a/ahkab/components/sources/VSource.py
+++ b/ahkab/components/sources/VSource.py
@@ -64,10 +64,11 @@ class VSource(Component):
     def __str__(self):
         rep = ""
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            sign = "-" if abs(self.arg_ac) > np.pi/2 else ""
+            rep = rep + "vac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
@@ -115,10 +116,11 @@ class VSource(Component):
         rep += "%s %s %s " % (self.part_id, nodes_dict[self.n1],
                              nodes_dict[self.n2])
         if self.dc_value is not None:
-            rep = rep + "type=vdc value=" + str(self.dc_value) + " "
+            rep = rep + "type=vdc vdc=" + str(self.dc_value) + " "
         if self.abs_ac is not None:
             #   TODO:   netlist parser doesn't accept `arg=` from `self.arg_ac`
-            rep = rep + "vac=" + str(self.abs_ac) + " "
+            sign = "-" if abs(self.arg_ac) > np.pi/2 else ""
+            rep = rep + "vac=" + sign + str(self.abs_ac) + " "
         if self.is_timedependent:
             rep = rep + str(self._time_function)
         return rep
diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 259dce0..5c3db0f 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -350,11 +350,10 @@ class ekv_device:
         return get_value
 
     def get_netlist_elem_line(self, nodes_dict):
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%g l=%g m=%g n=%g" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.ekv_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
+              self.device.W, self.device.L, self.device.M,
               self.device.N)
 
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 2cfbb44..0793d19 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -420,11 +420,10 @@ class mosq_device(object):
 
     def get_netlist_elem_line(self, nodes_dict):
         """Get the element netlist entry"""
-        mos_type = self._get_mos_type()
-        return "%s %s %s %s %s %s type=%s w=%g l=%g m=%g n=%g" % \
+        return "%s %s %s %s %s %s w=%g l=%g m=%g n=%g" % \
               (self.part_id, nodes_dict[self.n1], nodes_dict[self.ng],
               nodes_dict[self.n2], nodes_dict[self.nb], self.mosq_model.name,
-              mos_type, self.device.W, self.device.L, self.device.M,
+              self.device.W, self.device.L, self.device.M,
               self.device.N)
 
 
diff --git a/ahkab/switch.py b/ahkab/switch.py
index 06524de..bcf55ec 100644
--- a/ahkab/switch.py
+++ b/ahkab/switch.py
@@ -263,10 +263,9 @@ class switch_device:
 
     def get_netlist_elem_line(self, nodes_dict):
         """Return a netlist line corresponding to the switch."""
-        return "%s %s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
+        return "%s %s %s %s %s %s" % (self.part_id, nodes_dict[self.n1],
                                 nodes_dict[self.n2], nodes_dict[self.sn1],
-                                nodes_dict[self.sn2], self.model.name, \
-                                str(self.device.is_on))
+                                nodes_dict[self.sn2], self.model.name)
 
 
 VT_DEFAULT = 0.0
diff --git a/ahkab/time_functions.py b/ahkab/time_functions.py
index 36246ef..dd28514 100644
--- a/ahkab/time_functions.py
+++ b/ahkab/time_functions.py
@@ -841,11 +841,11 @@ class pwl(object):
         pwl_str = "type=pwl"
         tv = " "
         for x, y in zip(self.x, self.y):
-            tv += "%g %g "
+            tv += "%g %g " % (x, y)
         pwl_str += tv
         if self.td:
             pwl_str += "td=%g " % self.td
         if self.repeat:
-            pwl_str = "RPT=%g " % self.repeat_time
+            pwl_str += "RPT=%g " % self.repeat_time
         return pwl_str[:-1]
 
-- 
2.43.0


From 2f2dac3c393948fddf793be732f8906506bf895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 27/64] fix: directives: documented aliases and defaults of
 .dc, .ac, .pz, .op, .pss are honoured

---
 ahkab/ac.py             |  1 +
 ahkab/ahkab.py          |  3 +++
 ahkab/dc_analysis.py    |  3 ++-
 ahkab/netlist_parser.py | 16 ++++++++++++++--
 ahkab/pss.py            |  4 ++--
 5 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index dfe6759..6347b49 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -109,6 +109,7 @@ from . import (circuit, dc_analysis, components, options, printing, results,
 
 specs = {'ac': {'tokens': ({
                            'label': 'type',
+                           'alias': 'sweep_type',
                            'pos': 0,
                            'type': str,
                            'needed': False,
diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index ac174aa..d1a199b 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -989,6 +989,9 @@ def _handle_netlist_ics(circ, an_list, ic_list):
         if 'x0' in an and isinstance(an['x0'], text_type):
             if an['x0'] in _get_x0s(circ):
                 an['x0'] = _get_x0s(circ)[an['x0']]
+            elif an['type'] == 'pz':
+                # only needed if the circuit is non-linear
+                an['x0'] = None
             else:
                 raise ValueError(("The x0 '%s' is not available." % an["x0"]) +\
                                  (an['x0'] == 'op' or an['x0'] == 'op+ic')*
diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 091a09b..b373b44 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -65,7 +65,7 @@ specs = {'op': {
     'tokens': ({
                'label': 'guess',
                'pos': None,
-               'type': bool,
+               'type': str,
                'needed': False,
                'dest': 'guess',
                'default': options.dc_use_guess
@@ -82,6 +82,7 @@ specs = {'op': {
 },
     'dc': {'tokens': ({
                       'label': 'source',
+                      'alias': 'src',
                       'pos': 0,
                       'type': str,
                       'needed': True,
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 96ab5ab..090439a 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1539,7 +1539,8 @@ def parse_single_analysis(line):
             label, value = None, token
         assigned = False
         for t in params:
-            if (label is None and t['pos'] == i) or label == t['label']:
+            if (label is None and t['pos'] == i) or \
+               (label is not None and label in (t['label'], t.get('alias'))):
                 try:
                     value = convert(value, t['type'], raise_exception=True)
                 except ValueError as msg:
@@ -1580,9 +1581,20 @@ def parse_single_analysis(line):
                 raise NetlistParseError("UIC=3 requires IC_LABEL to be set.")
         else:
             raise NetlistParseError("Unknown UIC value: %g" % uic)
-    # ... and pz :(
+    # ... pz :(
     if an['type'] == 'pz':
         an.update({'x0':'op'})
+        # implied by the output and the source
+        an.pop('zeros')
+    # ... and op, where the guess may be the label of a .ic
+    if an['type'] == 'op' and isinstance(an['guess'], str):
+        try:
+            an['guess'] = convert_boolean(an['guess'])
+        except NetlistParseError:
+            if an['x0'] is not None:
+                raise
+            an['x0'] = an['guess']
+            an['guess'] = options.dc_use_guess
 
     return an
 
diff --git a/ahkab/pss.py b/ahkab/pss.py
index 96b4f65..ae62cb8 100644
--- a/ahkab/pss.py
+++ b/ahkab/pss.py
@@ -45,7 +45,7 @@ specs = {'pss': {'tokens': ({
                             'label': 'points',
                             'pos': None,
                             'type': float,
-                            'needed': True,
+                            'needed': False,
                             'dest': 'points',
                             'default': None
                             },
@@ -63,7 +63,7 @@ specs = {'pss': {'tokens': ({
                             'type': bool,
                             'needed': False,
                             'dest': 'autonomous',
-                            'default': '0'
+                            'default': False
                             },
                  {
                             'label': 'method',
-- 
2.43.0


From 3a9ce837b5075b491b1d4b3b95090bafc8fe83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:37 +0000
Subject: [PATCH 28/64] fix: pole-zero analysis: mutual inductances, non-linear
 circuits, shift, defective time constants, results without zeros

---
 ahkab/pz.py      | 325 ++++++++++++++++++++++++++---------------------
 ahkab/results.py |  30 ++---
 2 files changed, 193 insertions(+), 162 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0c64865..0d05786 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -37,9 +37,8 @@ and:
     *Proceedings of the 34th Midwest Symposium on*, pp.380,
     383 vol.1, 14-17 May 1991
 
-Frequency sweeping -- or shifting -- is performed with a random frequency
-kick, currently, hoping not to kick so hard that we end up on the negative side.
-A bisection method would be better and hopefully will be implemented soon.
+Frequency shifting is performed to a frequency of the order of magnitude of
+the singularities of the circuit.
 
 Overview
 ~~~~~~~~
@@ -65,7 +64,6 @@ import numpy as np
 from . import circuit
 from . import dc_analysis
 from . import components
-from . import transient
 from . import plotting
 from . import printing
 from . import py3compat
@@ -82,6 +80,7 @@ specs = {'pz': {'tokens': ({
                            },
                            {
                            'label': 'input',
+                           'alias': 'source',
                            'pos': 1,
                            'type': str,
                            'needed': False,
@@ -89,6 +88,14 @@ specs = {'pz': {'tokens': ({
                            'default': None
                            },
                            {
+                           'label': 'zeros',
+                           'pos': None,
+                           'type': bool,
+                           'needed': False,
+                           'dest': 'zeros',
+                           'default': True
+                           },
+                           {
                            'label': 'shift',
                            'pos': 2,
                            'type': float,
@@ -99,13 +106,6 @@ specs = {'pz': {'tokens': ({
                }
         }
 
-def _enlarge_matrix(M):
-    if M is None:
-        return np.zeros((1, 1))
-    else:
-        return np.vstack((np.hstack((M, np.zeros((M.shape[0], 1)))),
-                         np.zeros((1, M.shape[1] + 1))))
-
 def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
     """Calculate the circuit poles.
 
@@ -130,7 +130,8 @@ def calculate_poles(mc, MNA=None, x0=None, outfile=None, verbose=0):
         The PZ solution, with no zeros.
     """
     return calculate_singularities(mc, input_source=None, output_port=None, 
-                                   MNA=None, shift=0)[0]
+                                   MNA=MNA, x0=x0, shift=0, outfile=outfile,
+                                   verbose=verbose)
 
 def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                             x0=None, shift=0, outfile=None, verbose=0):
@@ -176,17 +177,12 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
         if type(input_source) not in py3compat.string_types:
             input_source = input_source.part_id
         if type(output_port) in py3compat.string_types:
-            output_port = plotting._split_netlist_label(output_port)[0] 
-            output_port = [o[1:] for o in output_port]
-            output_port = [o.lower() for o in output_port]
-            if len(output_port) == 1:
-                # we refer to the ground implicitely
-                output_port += ['0']
+            output_port = _parse_output_port(mc, output_port)
         if np.isscalar(output_port):
             output_port = (output_port, mc.gnd)
-        if (type(output_port) == tuple or type(output_port) == list) \
-           and type(output_port[0]) in py3compat.string_types:
-            output_port = [mc.ext_node_to_int(o) for o in output_port]
+        output_port = [mc.ext_node_to_int(o)
+                       if type(o) in py3compat.string_types else o
+                       for o in output_port]
         we_got_source = False
         for e in mc:
             if e.part_id == input_source:
@@ -194,8 +190,6 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                 break
         if not we_got_source:
             raise ValueError('Source %s not found in circuit.' % input_source)
-        RIIN = []
-        ROUT = []
     if MNA is None:
         MNA, N = dc_analysis.generate_mna_and_N(mc)
         if mc.is_nonlinear():
@@ -210,131 +204,32 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
                     # hopefully x0 is an ndarray!
                 printing.print_info_line(("Using the supplied op as " +
                                       "linearization point.", 5), verbose)
-            J, _ = dc_analysis.build_J_and_Tx(x0, MNA.shape[0]-1, mc, time=0., sparse=False)
+            J = np.zeros((MNA.shape[0] - 1, MNA.shape[1] - 1))
+            Tx = np.zeros((MNA.shape[0] - 1, 1))
+            for elem in mc:
+                if elem.is_nonlinear:
+                    dc_analysis._update_J_and_Tx(J, Tx, x0, elem, time=None)
             MNA[1:, 1:] += J
-    D = transient.generate_D(mc, MNA[1:, 1:].shape)
-    MNAinv = np.linalg.inv(MNA[1:, 1:] + shift*D[1:, 1:])
-    nodes_m1 = mc.get_nodes_number() - 1
-    vde1 = -1
-    MC = np.zeros((MNA.shape[0] - 1, 1))
-    TCM = None
-    dei_source = 0
-    for e1 in mc:
-        if circuit.is_elem_voltage_defined(e1):
-            vde1 += 1
-        if isinstance(e1, components.Capacitor):
-            MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-            MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-        elif isinstance(e1, components.Inductor):
-            MC[nodes_m1 + vde1] += -1.
-        elif calc_zeros and e1.part_id == input_source:
-            if isinstance(e1, components.sources.VSource):
-                MC[nodes_m1 + vde1] += -1.
-            elif isinstance(e1, components.sources.ISource):
-                MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-                MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-            else:
-                raise Exception("Unknown input source type %s" % input_source)
-        else:
-            continue
-        TV = -1. * np.dot(MNAinv, MC)
-        dei_victim = 0
-        vde2 = -1
-        for e2 in mc:
-            if circuit.is_elem_voltage_defined(e2):
-                vde2 += 1
-            if isinstance(e2, components.Capacitor):
-                v = 0
-                if e2.n1:
-                    v += TV[e2.n1 - 1, 0]
-                if e2.n2:
-                    v -= TV[e2.n2 - 1, 0]
-            elif isinstance(e2, components.Inductor):
-                v = TV[nodes_m1 + vde2, 0]                
-            else:
-                continue
-            if calc_zeros and e1.part_id == input_source:
-                RIIN += [v]
-            else:
-                if not dei_source:
-                    TCM = _enlarge_matrix(TCM)
-                TCM[dei_victim, dei_source] = v*e1.value
-                dei_victim += 1
-        if calc_zeros and e1.part_id == input_source:
-            ROUTIN = 0
-            o1, o2 = output_port
-            if o1:
-                ROUTIN += TV[o1 - 1, 0]
-            if o2:
-               ROUTIN -= TV[o2 - 1, 0]
-        else:
-            dei_source += 1
-        # reset, get ready to restart
-        MC[:, :] = 0.
-    if TCM is not None:
-        if np.linalg.det(TCM):
-            poles = 1./(2.*np.pi)*(1./np.linalg.eigvals(TCM) + shift)
-        else:
-            return calculate_singularities(mc, input_source, output_port, MNA=MNA,
-                                           outfile=outfile, 
-                                           shift=shift+np.abs(1+np.random.uniform())*1e3)
-    else:
-        poles = []
-    if calc_zeros and TCM is not None:
-        # re-loop, get the ROUT elements
-        vde1 = -1
-        MC = np.zeros((MNA.shape[0] - 1, 1))
-        ROUT = []
-        for e1 in mc:
-            if circuit.is_elem_voltage_defined(e1):
-                vde1 += 1
-            if isinstance(e1, components.Capacitor):
-                MC[e1.n1 - 1, 0] += 1. if e1.n1 > 0 else 0.
-                MC[e1.n2 - 1, 0] -= 1. if e1.n2 > 0 else 0.
-            elif isinstance(e1, components.Inductor):
-                MC[nodes_m1 + vde1, 0] += -1.
-            else:
-                continue
-            TV = -1.*np.dot(MNAinv, MC)
-            v = 0
-            o1, o2 = output_port
-            if o1:
-                v += TV[o1 - 1, 0]
-            if o2:
-               v -= TV[o2 - 1, 0]
-            ROUT += [v*e1.value]
-            # reset, get ready to restart
-            MC[:, :] = 0.
-        # Reshape the matrices and evaluate the zero correction.
-        RIIN = np.array(RIIN).reshape((-1, 1))
-        RIIN = np.tile(RIIN, (1, RIIN.shape[0]))
-        ROUT = np.diag(np.atleast_1d(np.array(ROUT)))
-        if ROUT.any():
-            try:
-                if not np.all(ROUTIN) or not np.isfinite(ROUTIN):
-                    # immediate catch
-                    raise ValueError("ROUT-IN is either Inf, NaN or null")
-                ZTCM = TCM - np.dot(RIIN, ROUT)/ROUTIN
-                if not (np.isfinite(ZTCM).all()):
-                    raise ValueError("Array contains infs, NaNs or both")
-                    # immediate catch
-                eigvals = np.linalg.eigvals(ZTCM)
-                if not np.all(eigvals) or not np.isfinite(eigvals).all():
-                    # immediate catch
-                    raise ValueError("ZTCM eigenvalues contain either Inf, NaN or null values")
-                zeros = 1./(2.*np.pi)*(1./np.linalg.eigvals(ZTCM) + shift)
-            except ValueError:
-                return calculate_singularities(mc, input_source, output_port, 
-                                           MNA=MNA, outfile=outfile,
-                                           shift=shift+np.abs(np.random.uniform()+1)*1e3)
-        elif shift < 1e12:
-            return calculate_singularities(mc, input_source, output_port, 
-                                       MNA=MNA, outfile=outfile,
-                                       shift=shift*np.abs(np.random.uniform()+1)*10)
-        else:
-            zeros = []
-    else:
-        zeros = []
+    MNA = MNA[1:, 1:]
+    if not calc_zeros:
+        input_source, output_port = None, None
+
+    # The singularities are those of a shifted circuit: the shift can be any
+    # frequency which is not itself a singularity, the result is the most
+    # accurate when it is of the order of magnitude of the singularities.
+    poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port,
+                                          abs(shift) or _guess_shift(mc, MNA))
+    for _ in range(2):
+        # the poles only: the zeros in the origin, often multiple, come with a
+        # numerical error that says nothing about the order of magnitude.
+        mags = np.abs(poles)
+        mags = mags[mags > 1e-6*mags.max()] if len(mags) else mags
+        if not len(mags):
+            break
+        poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port,
+                                              1.2345*np.exp(np.mean(np.log(mags))))
+    # from rad/s to Hz
+    poles, zeros = poles/(2.*np.pi), zeros/(2.*np.pi)
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
     zeros = np.array([a for a in zeros if np.abs(a) < options.pz_max], dtype=np.complex_)
     poles = np.sort_complex(poles)
@@ -342,6 +237,142 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     res = results.pz_solution(mc, poles, zeros, outfile)
     return res
 
+def _parse_output_port(mc, output_port):
+    """Convert ``V(n1,n2)`` or ``V(n1)`` to a tuple of external nodes."""
+    port = plotting._split_netlist_label(output_port)[0]
+    port = [o[1:] for o in port if o is not None]
+    if len(port) == 1:
+        # we refer to the ground implicitely
+        port += ['0']
+    # the labels are case-insensitive, the node names may not be
+    names = dict((n.lower(), n) for n in mc.nodes_dict
+                 if type(n) in py3compat.string_types)
+    return tuple(names.get(o.lower(), o) for o in port)
+
+def _guess_shift(mc, MNA):
+    """A first guess of the order of magnitude of the singularities."""
+    g = np.abs(np.diag(MNA)[:mc.get_nodes_number() - 1])
+    g = np.exp(np.mean(np.log(g[g > 0]))) if (g > 0).any() else 1.
+    w = [g/e.value if isinstance(e, components.Capacitor) else 1./(g*e.value)
+         for e in mc
+         if isinstance(e, (components.Capacitor, components.Inductor)) and e.value]
+    return 1.2345*np.exp(np.mean(np.log(np.abs(w)))) if len(w) else 1.
+
+def _shifted_singularities(mc, MNA, input_source, output_port, shift):
+    """Calculate poles and zeros from the circuit shifted by ``shift``.
+
+    ``MNA`` is the reduced matrix, ``output_port`` is a sequence of two
+    internal nodes. No zeros are calculated if it is ``None``.
+
+    If it happens that ``shift`` can't be used, a different shift is.
+
+    **Returns:**
+
+    poles, zeros : tuple of ndarrays
+        The finite singularities, in rad/s.
+    """
+    calc_zeros = output_port is not None
+    nodes_m1 = mc.get_nodes_number() - 1
+    vde = -1
+    # the columns of MC correspond to an unitary current from each capacitor,
+    # an unitary voltage from each inductor
+    MC, reactive, MCIN = [], [], None
+    for e in mc:
+        if circuit.is_elem_voltage_defined(e):
+            vde += 1
+        col = np.zeros((MNA.shape[0],))
+        if isinstance(e, components.Capacitor) or \
+           isinstance(e, components.sources.ISource):
+            if e.n1:
+                col[e.n1 - 1] += 1.
+            if e.n2:
+                col[e.n2 - 1] -= 1.
+        elif isinstance(e, components.Inductor) or \
+             isinstance(e, components.sources.VSource):
+            col[nodes_m1 + vde] = -1.
+        if isinstance(e, (components.Capacitor, components.Inductor)):
+            MC.append(col)
+            reactive.append(e)
+        if calc_zeros and e.part_id == input_source:
+            if not isinstance(e, (components.sources.VSource,
+                                  components.sources.ISource)):
+                raise Exception("Unknown input source type %s" % input_source)
+            MCIN = col
+    if not len(reactive):
+        return np.zeros((0,)), np.zeros((0,))
+    MC = np.array(MC).T
+    # The values of the reactive elements, with the mutual inductances. The
+    # port variables are scaled to have homogeneous units.
+    scale = np.sqrt(np.abs([e.value for e in reactive]))
+    scale[scale == 0] = 1.
+    values = np.diag([e.value for e in reactive])
+    index = dict((e.part_id.upper(), i) for i, e in enumerate(reactive))
+    for i, e in enumerate(reactive):
+        if isinstance(e, components.Inductor):
+            for cd in e.coupling_devices:
+                k = index[cd.get_other_inductor(e.part_id).upper()]
+                values[i, k] += cd.M
+    values = values/scale.reshape((-1, 1))/scale.reshape((1, -1))
+    MC = MC*scale.reshape((1, -1))
+    # the port variables are the capacitor voltages, the inductor currents
+    PORT = MC.copy()
+    for i, e in enumerate(reactive):
+        if isinstance(e, components.Inductor):
+            PORT[:, i] = -MC[:, i]
+    D = np.dot(np.dot(MC, values), PORT.T)
+    for _ in range(5):
+        try:
+            MNAinv = np.linalg.inv(MNA + shift*D)
+            break
+        except np.linalg.LinAlgError:
+            shift = shift*1.7320
+    else:
+        raise ValueError("The circuit equations are singular.")
+    TV = -1.*np.dot(MNAinv, MC)
+    TCM = np.dot(np.dot(PORT.T, TV), values)
+    poles = _invert_eigenvalues(TCM, shift)
+    if not calc_zeros:
+        return poles, np.zeros((0,))
+    CO = np.zeros((MNA.shape[0],))
+    o1, o2 = output_port
+    if o1:
+        CO[o1 - 1] += 1.
+    if o2:
+        CO[o2 - 1] -= 1.
+    for _ in range(3):
+        TVIN = -1.*np.dot(MNAinv, MCIN)
+        ROUTIN = np.dot(CO, TVIN)
+        if np.abs(ROUTIN) > 1e-13*np.abs(TVIN[:nodes_m1]).max():
+            break
+        # maybe there is a zero close to the shift frequency
+        shift = shift*1.7320
+        MNAinv = np.linalg.inv(MNA + shift*D)
+    else:
+        # no path from the source to the output
+        return poles, np.zeros((0,))
+    TV = -1.*np.dot(MNAinv, MC)
+    TCM = np.dot(np.dot(PORT.T, TV), values)
+    RIIN = np.dot(PORT.T, TVIN).reshape((-1, 1))
+    ROUT = np.dot(np.dot(CO, TV), values).reshape((1, -1))
+    zeros = _invert_eigenvalues(TCM - np.dot(RIIN, ROUT)/ROUTIN, shift)
+    return poles, zeros
+
+def _invert_eigenvalues(TCM, shift):
+    """The singularities corresponding to the time constants in ``TCM``.
+
+    The null time constants, which correspond to singularities at infinity,
+    may be defective eigenvalues: they are deflated before looking for the
+    others, the numerical error would otherwise make them finite.
+    """
+    tol = 1e-11*np.linalg.norm(TCM)
+    while TCM.shape[0]:
+        U, sv, _ = np.linalg.svd(TCM)
+        rank = (sv > tol).sum()
+        if rank == TCM.shape[0]:
+            break
+        TCM = np.dot(np.dot(U[:, :rank].T, TCM), U[:, :rank])
+    return 1./np.linalg.eigvals(TCM) + shift if TCM.shape[0] else np.zeros((0,))
+
 def _check_singularities(res, ref, atol=1e-4, rtol=1e-3):
     ref = copy.copy(ref)
     for i in res:
diff --git a/ahkab/results.py b/ahkab/results.py
index da4928a..52c255b 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1175,21 +1175,21 @@ class pz_solution(solution, _mutable_data):
         if np.prod(self.zeros.shape):
             for i in range(self.zeros.shape[0]):
                 self.variables += ['z%d' % i]
-            for v in self.variables:
-                self.units.update({v: "rad/s"})
-            self.csv_headers = []
-            for i in range(len(self.variables)):
-                self.csv_headers.append("Re(%s)" % self.variables[i])
-                self.csv_headers.append("Im(%s)" % self.variables[i])
-
-            # save in Re/Im form
-            sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
-            self._add_data(sdata)
-
-            # store local data too:
-            self.data = case_insensitive_dict()
-            for i in range(len(self.variables)):
-                self.data.update({self.variables[i]: data[i, 0]})
+        for v in self.variables:
+            self.units.update({v: "Hz"})
+        self.csv_headers = []
+        for i in range(len(self.variables)):
+            self.csv_headers.append("Re(%s)" % self.variables[i])
+            self.csv_headers.append("Im(%s)" % self.variables[i])
+
+        # save in Re/Im form
+        sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
+        self._add_data(sdata)
+
+        # store local data too:
+        self.data = case_insensitive_dict()
+        for i in range(len(self.variables)):
+            self.data.update({self.variables[i]: data[i, 0]})
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
-- 
2.43.0


From 2268c9b5073a9420bfd619d6be54c8530d890c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 29/64] fix: pole-zero analysis: noise taken for a transfer
 function or a finite singularity, a node as output port

---
 ahkab/pz.py | 88 +++++++++++++++++++++++++++++------------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 0d05786..a98bc3e 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -176,7 +176,9 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     if calc_zeros:
         if type(input_source) not in py3compat.string_types:
             input_source = input_source.part_id
-        if type(output_port) in py3compat.string_types:
+        if type(output_port) in py3compat.string_types and \
+           output_port not in mc.nodes_dict:
+            # a label, not a node
             output_port = _parse_output_port(mc, output_port)
         if np.isscalar(output_port):
             output_port = (output_port, mc.gnd)
@@ -217,17 +219,17 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     # The singularities are those of a shifted circuit: the shift can be any
     # frequency which is not itself a singularity, the result is the most
     # accurate when it is of the order of magnitude of the singularities.
-    poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port,
-                                          abs(shift) or _guess_shift(mc, MNA))
+    shift = abs(shift) or _guess_shift(mc, MNA)
+    poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port, shift)
     for _ in range(2):
         # the poles only: the zeros in the origin, often multiple, come with a
         # numerical error that says nothing about the order of magnitude.
         mags = np.abs(poles)
-        mags = mags[mags > 1e-6*mags.max()] if len(mags) else mags
+        mags = mags[mags > max([1e-9*shift] + list(1e-6*mags))]
         if not len(mags):
             break
-        poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port,
-                                              1.2345*np.exp(np.mean(np.log(mags))))
+        shift = 1.2345*np.exp(np.mean(np.log(mags)))
+        poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port, shift)
     # from rad/s to Hz
     poles, zeros = poles/(2.*np.pi), zeros/(2.*np.pi)
     poles = np.array([a for a in poles if np.abs(a) < options.pz_max], dtype=np.complex_)
@@ -320,51 +322,59 @@ def _shifted_singularities(mc, MNA, input_source, output_port, shift):
         if isinstance(e, components.Inductor):
             PORT[:, i] = -MC[:, i]
     D = np.dot(np.dot(MC, values), PORT.T)
-    for _ in range(5):
+    # the rows select the port variables and the output, the columns are the
+    # excitations from the reactive elements and from the input source
+    ROWS, COLS = PORT.T, np.dot(MC, values)
+    if calc_zeros:
+        CO = np.zeros((1, MNA.shape[0]))
+        o1, o2 = output_port
+        if o1:
+            CO[0, o1 - 1] += 1.
+        if o2:
+            CO[0, o2 - 1] -= 1.
+        ROWS = np.vstack((ROWS, CO))
+        COLS = np.hstack((COLS, MCIN.reshape((-1, 1))))
+    X = None
+    for sh in shift*1.7320**np.arange(5):
         try:
-            MNAinv = np.linalg.inv(MNA + shift*D)
-            break
+            MNAinv = np.linalg.inv(MNA + sh*D)
         except np.linalg.LinAlgError:
-            shift = shift*1.7320
-    else:
-        raise ValueError("The circuit equations are singular.")
-    TV = -1.*np.dot(MNAinv, MC)
-    TCM = np.dot(np.dot(PORT.T, TV), values)
-    poles = _invert_eigenvalues(TCM, shift)
-    if not calc_zeros:
-        return poles, np.zeros((0,))
-    CO = np.zeros((MNA.shape[0],))
-    o1, o2 = output_port
-    if o1:
-        CO[o1 - 1] += 1.
-    if o2:
-        CO[o2 - 1] -= 1.
-    for _ in range(3):
-        TVIN = -1.*np.dot(MNAinv, MCIN)
-        ROUTIN = np.dot(CO, TVIN)
-        if np.abs(ROUTIN) > 1e-13*np.abs(TVIN[:nodes_m1]).max():
+            continue
+        shift = sh
+        X = -1.*np.dot(np.dot(ROWS, MNAinv), COLS)
+        # the numerical error on X
+        E = np.dot(np.abs(MNAinv), np.dot(np.abs(MNA + shift*D), np.abs(MNAinv)))
+        if calc_zeros:
+            # the least significant voltage, from the voltages of all the nodes
+            # and, for a current source, from the voltage drop on the elements
+            noise = max(2e-14*np.dot(E[:nodes_m1, :], np.abs(MCIN)).max(),
+                        1e-12*np.abs(MCIN[:nodes_m1]).max()/
+                        (np.abs(MNA + shift*D)[:nodes_m1, :nodes_m1].max() or 1.))
+        E = 1e-14*np.dot(np.dot(np.abs(ROWS), E), np.abs(COLS))
+        if not calc_zeros or np.abs(X[-1, -1]) > noise:
             break
         # maybe there is a zero close to the shift frequency
-        shift = shift*1.7320
-        MNAinv = np.linalg.inv(MNA + shift*D)
-    else:
-        # no path from the source to the output
+    if X is None:
+        raise ValueError("The circuit equations are singular.")
+    m = len(reactive)
+    poles = _invert_eigenvalues(X[:m, :m], np.linalg.norm(E[:m, :m]), shift)
+    if not calc_zeros or np.abs(X[-1, -1]) <= noise:
+        # no input and output, or no path from the source to the output
         return poles, np.zeros((0,))
-    TV = -1.*np.dot(MNAinv, MC)
-    TCM = np.dot(np.dot(PORT.T, TV), values)
-    RIIN = np.dot(PORT.T, TVIN).reshape((-1, 1))
-    ROUT = np.dot(np.dot(CO, TV), values).reshape((1, -1))
-    zeros = _invert_eigenvalues(TCM - np.dot(RIIN, ROUT)/ROUTIN, shift)
+    RIIN, ROUT, ROUTIN = X[:m, m:], X[m:, :m], X[m, m]
+    ERR = E[:m, :m] + (np.dot(E[:m, m:], np.abs(ROUT)) + np.dot(np.abs(RIIN), E[m:, :m]) +
+                       np.dot(np.abs(RIIN), np.abs(ROUT))*E[m, m]/np.abs(ROUTIN))/np.abs(ROUTIN)
+    zeros = _invert_eigenvalues(X[:m, :m] - np.dot(RIIN, ROUT)/ROUTIN, np.linalg.norm(ERR), shift)
     return poles, zeros
 
-def _invert_eigenvalues(TCM, shift):
+def _invert_eigenvalues(TCM, err, shift):
     """The singularities corresponding to the time constants in ``TCM``.
 
     The null time constants, which correspond to singularities at infinity,
     may be defective eigenvalues: they are deflated before looking for the
-    others, the numerical error would otherwise make them finite.
+    others, the numerical error ``err`` would otherwise make them finite.
     """
-    tol = 1e-11*np.linalg.norm(TCM)
+    tol = max(err, 1e-12*np.linalg.norm(TCM))
     while TCM.shape[0]:
         U, sv, _ = np.linalg.svd(TCM)
         rank = (sv > tol).sum()
-- 
2.43.0


From 0f95b2278318f79a00066cbdfb5ad8c112be0911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 30/64] fix: pole-zero analysis: singularities much faster than
 the shift frequency are noise

---
 ahkab/pz.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index a98bc3e..98a736e 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -222,10 +222,10 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
     shift = abs(shift) or _guess_shift(mc, MNA)
     poles, zeros = _shifted_singularities(mc, MNA, input_source, output_port, shift)
     for _ in range(2):
-        # the poles only: the zeros in the origin, often multiple, come with a
+        # not the zeros and the poles in the origin: if multiple, they come with a
         # numerical error that says nothing about the order of magnitude.
         mags = np.abs(poles)
-        mags = mags[mags > max([1e-9*shift] + list(1e-6*mags))]
+        mags = mags[mags > max([1e-3*shift] + list(1e-6*mags))]
         if not len(mags):
             break
         shift = 1.2345*np.exp(np.mean(np.log(mags)))
@@ -350,7 +350,7 @@ def _shifted_singularities(mc, MNA, input_source, output_port, shift):
             noise = max(2e-14*np.dot(E[:nodes_m1, :], np.abs(MCIN)).max(),
                         1e-12*np.abs(MCIN[:nodes_m1]).max()/
                         (np.abs(MNA + shift*D)[:nodes_m1, :nodes_m1].max() or 1.))
-        E = 1e-14*np.dot(np.dot(np.abs(ROWS), E), np.abs(COLS))
+        E = 2e-15*np.dot(np.dot(np.abs(ROWS), E), np.abs(COLS))
         if not calc_zeros or np.abs(X[-1, -1]) > noise:
             break
         # maybe there is a zero close to the shift frequency
@@ -374,7 +374,8 @@ def _invert_eigenvalues(TCM, err, shift):
     may be defective eigenvalues: they are deflated before looking for the
     others, the numerical error ``err`` would otherwise make them finite.
     """
-    tol = max(err, 1e-12*np.linalg.norm(TCM))
+    # nothing can be said of what is so much faster than the shift frequency
+    tol = max(err, 1e-12*np.linalg.norm(TCM), 1e-11/shift)
     while TCM.shape[0]:
         U, sv, _ = np.linalg.svd(TCM)
         rank = (sv > tol).sum()
-- 
2.43.0


From 0460f5da08bf88aa8f6e53653b6ad55a5658f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 31/64] fix: pole-zero results with no output file (the default
 of calculate_singularities) crashed

---
 ahkab/results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 52c255b..7b62e35 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -1184,7 +1184,8 @@ class pz_solution(solution, _mutable_data):
 
         # save in Re/Im form
         sdata = data.reshape(-1).view(np.float_).reshape((-1, 1))
-        self._add_data(sdata)
+        if self.filename is not None:
+            self._add_data(sdata)
 
         # store local data too:
         self.data = case_insensitive_dict()
-- 
2.43.0


From 01d10a492aa182901f3dfb5503ee35a99d8ee000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 32/64] fix: brute-force PSS: float indices and a mismatched
 product made every analysis crash

---
 ahkab/bfpss.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 5275eae..4382af5 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -158,10 +158,8 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     nv_1 = circ.get_nodes_number() - 1
     ni = n_of_var - nv_1
     for i in range(points):
-        nv_indices += (i * mna.shape[0] * np.ones(nv_1) + \
-                      np.arange(nv_1)).tolist()
-        ni_indices += (i * mna.shape[0] * np.ones(ni) + \
-                      np.arange(nv_1, n_of_var)).tolist()
+        nv_indices += (i * n_of_var + np.arange(nv_1)).tolist()
+        ni_indices += (i * n_of_var + np.arange(nv_1, n_of_var)).tolist()
 
     converged = False
 
@@ -233,7 +231,7 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
                                             elem.g(opindex, v_ports, dpindex)
 
         J = J + CMAT
-        residuo = CMAT*x + T + Tf + Tt
+        residuo = CMAT.dot(x) + T + Tf + Tt
         if sparse:
             J = scipy.sparse.csc_matrix(J)
             lu = scipy.sparse.linalg.splu(J)
-- 
2.43.0


From fdf10b96f5e377728a1471ab38a642a3e8dcd43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 33/64] fix: analysis parameters that make no sense are value
 errors: transient times, PSS step and points, autonomous PSS, unknown nodes
 and sources

---
 ahkab/bfpss.py     | 3 +++
 ahkab/pss.py       | 2 +-
 ahkab/pz.py        | 3 +++
 ahkab/shooting.py  | 3 +++
 ahkab/symbolic.py  | 7 +++++++
 ahkab/transient.py | 8 +++-----
 ahkab/utilities.py | 8 ++++++++
 7 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index 4382af5..d8c2242 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -108,6 +108,9 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
     if outfile == "stdout":
         verbose = 0
 
+    if autonomous:
+        raise ValueError("Autonomous circuits are not supported.")
+
     printing.print_info_line(
         ("Starting periodic steady state analysis:", 3), verbose)
     printing.print_info_line(("Method: brute-force", 3), verbose)
diff --git a/ahkab/pss.py b/ahkab/pss.py
index ae62cb8..02e0f3b 100644
--- a/ahkab/pss.py
+++ b/ahkab/pss.py
@@ -106,5 +106,5 @@ def pss_analysis(*largs, **args):
     elif m == options.BFPSS:
         r = bfpss.bfpss(*largs, **args)
     else:
-        raise Exception("Unknown PSS method %s" % m)
+        raise ValueError("Unknown PSS method %s" % m)
     return r
diff --git a/ahkab/pz.py b/ahkab/pz.py
index 98a736e..adefb6c 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -182,6 +182,9 @@ def calculate_singularities(mc, input_source=None, output_port=None, MNA=None,
             output_port = _parse_output_port(mc, output_port)
         if np.isscalar(output_port):
             output_port = (output_port, mc.gnd)
+        for o in output_port:
+            if type(o) in py3compat.string_types and o not in mc.nodes_dict:
+                raise ValueError('Node %s not found in circuit.' % o)
         output_port = [mc.ext_node_to_int(o)
                        if type(o) in py3compat.string_types else o
                        for o in output_port]
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5cbf928..5ca4cd9 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -109,6 +109,9 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
     if outfile == "stdout":
         verbose = 0
 
+    if autonomous:
+        raise ValueError("Autonomous circuits are not supported.")
+
     printing.print_info_line(("Starting periodic steady state analysis:", 3),
                              verbose)
     printing.print_info_line(("Method: shooting", 3), verbose)
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 77ccd94..007fb13 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -144,6 +144,13 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     else:
         subs = _parse_substitutions(subs)
 
+    if source is not None and \
+       not any(elem.part_id.upper() == source.upper() and
+               isinstance(elem, (components.sources.VSource,
+                                 components.sources.ISource)) for elem in circ):
+        raise ValueError("There is no independent source %s in the circuit." %
+                         (source,))
+
     if not ac_enable:
         printing.print_info_line(
             ("Starting symbolic small-signal DC analysis...", 1), verbose)
diff --git a/ahkab/transient.py b/ahkab/transient.py
index a6f5868..da285ac 100644
--- a/ahkab/transient.py
+++ b/ahkab/transient.py
@@ -151,11 +151,9 @@ def transient_analysis(circ, tstart, tstep, tstop, method=options.default_tran_m
 
     #check parameters
     if tstart > tstop:
-        printing.print_general_error("tstart > tstop")
-        sys.exit(1)
-    if tstep < 0:
-        printing.print_general_error("tstep < 0")
-        sys.exit(1)
+        raise ValueError("tstart > tstop")
+    if not tstep > 0:
+        raise ValueError("The time step has to be positive, got %g" % (tstep,))
 
     if verbose > 4:
         tmpstr = "Vea = %g Ver = %g Iea = %g Ier = %g max_time_iter = %g HMIN = %g" % \
diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index c73dd18..1aca942 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -583,6 +583,14 @@ def check_step_and_points(step=None, points=None, period=None,
         printing.print_warning("Both step and # of points set. Using step = %f." % step)
         points = None
 
+    if period is None or not period > 0:
+        raise ValueError("The period has to be set and positive.")
+    if step is not None and not 0 < step <= period:
+        raise ValueError("The step has to be positive and not longer than " +
+                         "the period, got %g" % (step,))
+    if points is not None and points < 2:
+        raise ValueError("At least two points are needed, got %g" % (points,))
+
     if points:
         step = float(period)/(points - 1)
     else:
-- 
2.43.0


From 43be8e13451a8e5f92bd939315d7e11f9772136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 34/64] fix: pole-zero analysis: a wider margin before a
 transfer function is told from noise

---
 ahkab/pz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index adefb6c..2875e11 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -350,7 +350,7 @@ def _shifted_singularities(mc, MNA, input_source, output_port, shift):
         if calc_zeros:
             # the least significant voltage, from the voltages of all the nodes
             # and, for a current source, from the voltage drop on the elements
-            noise = max(2e-14*np.dot(E[:nodes_m1, :], np.abs(MCIN)).max(),
+            noise = max(5e-13*np.dot(E[:nodes_m1, :], np.abs(MCIN)).max(),
                         1e-12*np.abs(MCIN[:nodes_m1]).max()/
                         (np.abs(MNA + shift*D)[:nodes_m1, :nodes_m1].max() or 1.))
         E = 2e-15*np.dot(np.dot(np.abs(ROWS), E), np.abs(COLS))
-- 
2.43.0


From 7404716352b8c6358c77d784fb31dba0eb3aabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 35/64] fix: PSS step: whole steps in a period are counted
 regardless of rounding

---
 ahkab/utilities.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ahkab/utilities.py b/ahkab/utilities.py
index 1aca942..a7653ce 100644
--- a/ahkab/utilities.py
+++ b/ahkab/utilities.py
@@ -594,13 +594,13 @@ def check_step_and_points(step=None, points=None, period=None,
     if points:
         step = float(period)/(points - 1)
     else:
+        # the number of whole steps in a period
         points = float(period)/step
-        if points % 1 != 0:
-            step = step + (step * (points % 1)) / int(points)
-            points = int(float(period)/step)
-            printing.print_warning("adapted step is %g" % (step,))
-        else:
-            points = int(points)
+        points = int(round(points)) if abs(points - round(points)) < 1e-9*points \
+                 else int(points)
+        if abs(step*points - period) > 1e-9*period:
+            printing.print_warning("adapted step is %g" % (float(period)/points,))
+        step = float(period)/points
         # 0 - N where xN is in reality the first point of the second period!!
         points = points + 1
 
-- 
2.43.0


From 5c868898f712ab7ff2cbf92a947f9b77f8a8446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 36/64] fix: PSS analyses of circuits with square-law MOS
 devices crashed

---
 ahkab/bfpss.py    | 50 +++++++----------------------------------------
 ahkab/shooting.py | 42 ++++-----------------------------------
 2 files changed, 11 insertions(+), 81 deletions(-)

diff --git a/ahkab/bfpss.py b/ahkab/bfpss.py
index d8c2242..566900c 100644
--- a/ahkab/bfpss.py
+++ b/ahkab/bfpss.py
@@ -187,51 +187,15 @@ def bfpss(circ, period, step=None, points=None, autonomous=False, x0=None,
             T[:, 0] = 0
             td[:, 0] = 0
         for index in range(1, points):
+            # build all dT(xn)/dxn (stored in J) and T(x)
+            rows = slice(index*n_of_var, (index + 1)*n_of_var)
+            Jn = np.zeros((n_of_var, n_of_var))
+            Tn = np.zeros((n_of_var, 1))
             for elem in circ:
-                # build all dT(xn)/dxn (stored in J) and T(x)
                 if elem.is_nonlinear:
-                    oports = elem.get_output_ports()
-                    for opindex in range(len(oports)):
-                        dports = elem.get_drive_ports(opindex)
-                        v_ports = []
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            # build v: remember we trashed the
-                            # 0 row and 0 col of mna -> -1
-                            v = 0
-                            if dn1:
-                                v = v + x[index * n_of_var + dn1 - 1, 0]
-                            if dn2:
-                                v = v - x[index * n_of_var + dn2 - 1, 0]
-                            v_ports.append(v)
-                        # all drive ports are ready.
-                        n1, n2 = oports[opindex][0], oports[opindex][1]
-                        if n1:
-                            T[index * n_of_var + n1 - 1, 0] = T[index * n_of_var + n1 - 1, 0] + \
-                                                              elem.i(opindex, v_ports)
-                        if n2:
-                            T[index * n_of_var + n2 - 1, 0] = T[index * n_of_var + n2 - 1, 0] - \
-                                                              elem.i(opindex, v_ports)
-                        for dpindex in range(len(dports)):
-                            dn1, dn2 = dports[dpindex]
-                            if n1:
-                                if dn1:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn1 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n1 - 1, index * n_of_var + dn2 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                            if n2:
-                                if dn1:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] = \
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn1 - 1] - 1.0 * \
-                                            elem.g(opindex, v_ports, dpindex)
-                                if dn2:
-                                    J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] =\
-                                        J[index * n_of_var + n2 - 1, index * n_of_var + dn2 - 1] + \
-                                            elem.g(opindex, v_ports, dpindex)
+                    dc_analysis._update_J_and_Tx(Jn, Tn, x[rows, :], elem, time=0)
+            J[rows, rows] = Jn
+            T[rows, :] = Tn
 
         J = J + CMAT
         residuo = CMAT.dot(x) + T + Tf + Tt
diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index 5ca4cd9..ed9ab22 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -312,50 +312,16 @@ def _build_Tass_static_vector(circ, Tf, points, step, tick, n_of_var, verbose=3)
 
 
 def _get_variable_MAass_and_Tass(circ, xi, xi_minus_1, M, D, step, n_of_var):
-    Tass = np.zeros((n_of_var,))
+    Tx = np.zeros((n_of_var, 1))
     J = np.zeros((n_of_var, n_of_var))
     (C1, C0) = implicit_euler.get_df_coeff(step)
 
     for elem in circ:
         # build all dT(xn)/dxn (stored in J) and T(x)
         if elem.is_nonlinear:
-            output_ports = elem.get_output_ports()
-            for index in range(len(output_ports)):
-                n1, n2 = output_ports[index]
-                ports = elem.get_drive_ports(index)
-                v_ports = []
-                for port in ports:
-                    v = 0  # build v: remember we trashed the 0 row and 0 col of mna -> -1
-                    if port[0]:
-                        v = v + xi[port[0] - 1]
-                    if port[1]:
-                        v = v - xi[port[1] - 1]
-                    v_ports.append(v)
-                if n1:
-                    Tass[n1 - 1] = Tass[n1 - 1] + elem.i(index, v_ports)
-                if n2:
-                    Tass[n2 - 1] = Tass[n2 - 1] - elem.i(index, v_ports)
-                for pindex in range(len(ports)):
-                    if n1:
-                        if ports[pindex][0]:
-                            J[n1 - 1, ports[pindex][0] - 1] = \
-                                J[n1 - 1, ports[pindex][0] - 1] + \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n1 - 1, ports[pindex][1] - 1] = \
-                                J[n1 - 1, ports[pindex][1] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                    if n2:
-                        if ports[pindex][0]:
-                            J[n2 - 1, ports[pindex][0] - 1] = \
-                                J[n2 - 1, ports[pindex][0] - 1] - \
-                                elem.g(index, v_ports, pindex)
-                        if ports[pindex][1]:
-                            J[n2 - 1, ports[pindex][1] - 1] = \
-                                J[n2 - 1, ports[pindex][1] - 1] + \
-                                elem.g(index, v_ports, pindex)
-
-    Tass = Tass + np.dot(D*C1, xi) + np.dot(M, xi) + np.dot(D * C0, xi_minus_1)
+            dc_analysis._update_J_and_Tx(J, Tx, xi.reshape(-1, 1), elem, time=0)
+
+    Tass = Tx[:, 0] + np.dot(D*C1, xi) + np.dot(M, xi) + np.dot(D * C0, xi_minus_1)
 
     return J, Tass
 
-- 
2.43.0


From afc8b4cbd5f91cec90132eb3ba9a79958a4f6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:26 +0000
Subject: [PATCH 37/64] fix: pole-zero analysis: a transfer function is zero if
 it is at two frequencies

---
 ahkab/pz.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ahkab/pz.py b/ahkab/pz.py
index 2875e11..8270d01 100644
--- a/ahkab/pz.py
+++ b/ahkab/pz.py
@@ -337,7 +337,7 @@ def _shifted_singularities(mc, MNA, input_source, output_port, shift):
             CO[0, o2 - 1] -= 1.
         ROWS = np.vstack((ROWS, CO))
         COLS = np.hstack((COLS, MCIN.reshape((-1, 1))))
-    X = None
+    X, nulls = None, 0
     for sh in shift*1.7320**np.arange(5):
         try:
             MNAinv = np.linalg.inv(MNA + sh*D)
@@ -354,9 +354,10 @@ def _shifted_singularities(mc, MNA, input_source, output_port, shift):
                         1e-12*np.abs(MCIN[:nodes_m1]).max()/
                         (np.abs(MNA + shift*D)[:nodes_m1, :nodes_m1].max() or 1.))
         E = 2e-15*np.dot(np.dot(np.abs(ROWS), E), np.abs(COLS))
-        if not calc_zeros or np.abs(X[-1, -1]) > noise:
+        if not calc_zeros or np.abs(X[-1, -1]) > noise or nulls:
             break
-        # maybe there is a zero close to the shift frequency
+        # maybe there is a zero close to the shift frequency: look elsewhere, once
+        nulls += 1
     if X is None:
         raise ValueError("The circuit equations are singular.")
     m = len(reactive)
-- 
2.43.0


From 15a3691d0e79bcec59660bc2a7ae4adaf8575bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 38/64] fix: data files: append, headers of an empty file,
 samples skipped and the end-of-file flag

---
 ahkab/csvlib.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/ahkab/csvlib.py b/ahkab/csvlib.py
index 205d259..6c292dd 100644
--- a/ahkab/csvlib.py
+++ b/ahkab/csvlib.py
@@ -95,7 +95,8 @@ def write_csv(filename, data, headers, append=False):
         print("DATA: " + str(data.shape) + " headers length: " + str(len(headers)))
 
     headers = SEPARATOR.join(headers) if not append else ""
-    np.savetxt(fp, data.T, delimiter=SEPARATOR, header=headers, comments='#')
+    np.savetxt(fp, data.T, delimiter=SEPARATOR, header=headers, comments='#',
+               encoding='utf-8')
 
     _close_fp(fp, filename)
 
@@ -114,15 +115,11 @@ def write_headers(filename, headers):
 
     """
     fp = _get_fp(filename, mode="wb")
-    headers = copy.copy(headers)
-    if not headers[0][0] == '#':
-        headers[0] = '#' + headers[0]
-    for hi in range(len(headers)):
-        fp.write(headers[hi])
-        if hi < len(headers) - 1:
-            fp.write(SEPARATOR)
-        else:
-            fp.write("\n")
+    line = SEPARATOR.join(headers) + "\n"
+    if not line[0] == '#':
+        line = '#' + line
+    fp.write(line.encode('utf-8'))
+    _close_fp(fp, filename)
 
 
 def _get_fp(filename, mode="r"):
@@ -133,7 +130,7 @@ def _get_fp(filename, mode="r"):
             print("(EE) Mode %s is not supported for stdout." % (mode,))
             fp = None
     else:
-        fp = io.open(filename, mode)#, encoding=options.encoding)
+        fp = io.open(filename, mode, encoding=None if 'b' in mode else 'utf-8')
     return fp
 
 
@@ -142,7 +139,7 @@ def _close_fp(fp, filename):
         fp.flush()
     except IOError:
         pass
-    if filename == 'stdout':
+    if filename == 'stdout' or filename == '-' or filename == sys.stdout:
         pass
     else:
         fp.close()
@@ -198,14 +195,15 @@ def get_headers(filename):
     """
 
     fp = _get_fp(filename, 'r')
-    headers = None
     line = ""
-    while line == "":
-        line = fp.readline()
+    for line in fp:
         line = line.strip()
-        if line[0] == '#':
+        if line[:1] == '#':
             line = line[1:]
-    headers = line.split(SEPARATOR)
+        if line:
+            break
+    _close_fp(fp, filename)
+    headers = line.split(SEPARATOR) if line else []
     return headers
 
 
@@ -262,13 +260,15 @@ def load_csv(filename, load_headers=None, nsamples=None, skip=0, verbose=3):
         raise ValueError("Specified header not found")
 
     fp = _get_fp(filename)
-    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=skip, ndmin=2)
+    # the first line holds the headers, the samples follow
+    data = np.loadtxt(fp, delimiter=SEPARATOR, usecols=his, unpack=True, skiprows=1, ndmin=2)
     _close_fp(fp, filename)
+    data = data.reshape((len(his), -1))[:, skip:]
 
     # prepare return values
-    EOF = (nsamples is None) or (nsamples == data.shape[1])
+    EOF = (nsamples is None) or (nsamples >= data.shape[1])
     if nsamples is not None:
-        data = data[:, :min(nsamples, data.shape[1])]
+        data = data[:, :nsamples]
     pos = skip + data.shape[1]
     headers = list(map(headers.__getitem__, his))
 
-- 
2.43.0


From 2145be2baf49e07539a16d497619d08efb7e2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 39/64] fix: result sets: independent iterations, the same data
 by every access path, phases saved in degrees, keys of any case

---
 ahkab/results.py | 127 +++++++++++------------------------------------
 1 file changed, 30 insertions(+), 97 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 7b62e35..9b9c44b 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -154,7 +154,6 @@ class solution(object):
         self.skip_nodes_list = []   # nodi da saltare, solo interni
         self.variables = []
         self.units = case_insensitive_dict()
-        self.iter_index = 0
         # Please redefine this sol_type in the subclasses
         self.sol_type = None
 
@@ -219,28 +218,9 @@ class solution(object):
     def items(self):
         return list(zip(self.keys(), self.values()))
 
-    # iterator methods
     def __iter__(self):
-        self.iter_index = 0
-        self.iter_data, self.iter_headers, _, _ = csvlib.load_csv(self.filename)
-        return self
-
-    def next(self):
-        return self.__next__()
-
-    def __next__(self):
-        if self.iter_index == len(self.iter_headers):
-            self.iter_index = 0
-            raise StopIteration
-        else:
-            next_i = self.iter_headers[self.iter_index]
-            if hasattr(self.iter_data, 'shape'):
-                next_d = self.iter_data[self.iter_index, :]
-            else:
-                next_d = self.iter_data[self.iter_index]
-            nxt = next_i, next_d
-            self.iter_index += 1
-        return nxt
+        """Iterate over the (name, value) pairs."""
+        return iter(list(self.items()))
 
 class op_solution(solution, _mutable_data):
     """OP results
@@ -331,8 +311,8 @@ class op_solution(solution, _mutable_data):
                 relerror = self.errors[v]/self.results[v]*100.0
             else:
                 relerror = 0.0
-            line = (v, self.units[v], self.results[v], self.errors[v], '%d' %
-                    relerror)
+            line = (v, self.units[v], self.results[v], self.errors[v], '%.0f' %
+                    np.trunc(relerror))
             table.append(line)
         return printing.table(table, headers=headers)
 
@@ -516,7 +496,7 @@ class op_solution(solution, _mutable_data):
 
     def values(self):
         """Get all of the results set's variables values."""
-        return np.squeeze(self.x).tolist()
+        return self.x[:, 0].tolist()
 
     def items(self):
         vlist = []
@@ -524,24 +504,6 @@ class op_solution(solution, _mutable_data):
             vlist.append(self.x[j, 0])
         return list(zip(self.variables, vlist))
 
-    # iterator methods
-    def __iter__(self):
-        self._iter_index = 0
-        return self
-
-    def next(self):
-        if self._iter_index == len(self.variables):
-            self._iter_index = 0
-            raise StopIteration
-        else:
-            nxt = self.variables[self._iter_index], \
-                   self.x[self._iter_index]
-            self._iter_index += 1
-        return nxt
-
-    def __next__(self):
-        return self.next()
-
 
 class ac_solution(solution, _mutable_data):
     """AC results
@@ -570,6 +532,8 @@ class ac_solution(solution, _mutable_data):
         self.linearization_op = op
         self.stype = stype
         self.ostart, self.ostop, self.opoints = start, stop, points
+        # how the phase of these data is saved, whatever the option becomes
+        self._phase_in_deg = options.ac_phase_in_deg
 
         self.variables += ["f"]
         self.units.update({"f": "Hz"})
@@ -610,11 +574,14 @@ class ac_solution(solution, _mutable_data):
         xsplit = np.zeros((x.shape[0]*2, 1))
         for i in range(x.shape[0]):
             xsplit[2*i, 0] = np.abs(x[i, 0])
-            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=options.ac_phase_in_deg)
+            xsplit[2*i+1, 0] = np.angle(x[i, 0], deg=self._phase_in_deg)
 
         data = np.concatenate((frequency, xsplit), axis=0)
         self._add_data(data)
 
+    def _to_radians(self, phase):
+        return np.deg2rad(phase) if self._phase_in_deg else phase
+
     def get_x(self):
         return self[self.variables[0]]
 
@@ -646,12 +613,12 @@ class ac_solution(solution, _mutable_data):
                     ip = [h.upper() for h in headers].index(match_phase)
                     if cplx_data is None:
                         cplx_data = np.array(data[i, :]*
-                                             np.exp(1j*data[ip,:]).reshape((1, -1)),
+                                             np.exp(1j*self._to_radians(data[ip, :])).reshape((1, -1)),
                                              dtype=np.complex_)
                     else:
                         cplx_data = np.vstack((cplx_data,
                                                (data[i, :]*
-                                                np.exp(1j*data[ip, :])).reshape((1, -1))))
+                                                np.exp(1j*self._to_radians(data[ip, :]))).reshape((1, -1))))
         return cplx_data
 
     # Access as a dictionary BY VARIABLE NAME:
@@ -671,7 +638,7 @@ class ac_solution(solution, _mutable_data):
             # raise the correct exception
             raise KeyError(name)
         if len(headers) == 2:
-            data = data[0, :] * np.exp(1j*data[1, :])
+            data = data[0, :] * np.exp(1j*self._to_radians(data[1, :]))
         else:
             data = data.reshape((-1,))
         return data
@@ -694,14 +661,7 @@ class ac_solution(solution, _mutable_data):
 
     def items(self):
         values = self.values()
-        return zip(self.variables, values)
-
-    # iterator methods
-    def __iter__(self):
-        self.iter_index = 0
-        self.iter_data = self.values()
-        self.iter_headers = self.variables
-        return self
+        return list(zip(self.variables, values))
 
 class dc_solution(solution, _mutable_data):
     """DC results
@@ -731,9 +691,9 @@ class dc_solution(solution, _mutable_data):
         nv_1 = circ.get_nodes_number() - 1 # numero di soluzioni di tensione (al netto del ref)
         self.variables = [sweepvar]
         self.units = case_insensitive_dict()
-        if self.variables[0][0] == 'V':
+        if self.variables[0][0].upper() == 'V':
             self.units.update({self.variables[0]:'V'})
-        if self.variables[0][0] == 'I':
+        if self.variables[0][0].upper() == 'I':
             self.units.update({self.variables[0]:'A'})
 
         for index in range(nv_1):
@@ -962,7 +922,8 @@ class symbolic_solution(object):
         for symbol, result in results_dict.items():
             self.results.update({str(symbol):result})
 
-        self._symbols = list(results_dict.keys()) # keep them, they're useful
+        # keep them, they're useful (the keys of transfer functions are strings)
+        self._symbols = [] if tf else list(results_dict.keys())
         for expr in list(results_dict.values()):
             if tf:
                 expr = expr['gain']
@@ -1130,23 +1091,9 @@ class symbolic_solution(object):
         """Get all solutions."""
         return list(self.results.items())
 
-    # iterator methods
     def __iter__(self):
-        self.iter_index = -1
-        return self
-
-    def __next__(self):
-        """Iterator method."""
-        if self.iter_index == len(list(self.results.keys())) - 1:
-            self.iter_index = 0
-            raise StopIteration
-        else:
-            self.iter_index += 1
-        return list(self.results.keys())[self.iter_index], \
-               self.results[self._symbols[self.iter_index]]
-
-    def next(self):
-        return self.__next__()
+        """Iterate over the (name, value) pairs."""
+        return iter(self.items())
 
 class pz_solution(solution, _mutable_data):
     """PZ results
@@ -1188,6 +1135,7 @@ class pz_solution(solution, _mutable_data):
             self._add_data(sdata)
 
         # store local data too:
+        self._sdata = sdata
         self.data = case_insensitive_dict()
         for i in range(len(self.variables)):
             self.data.update({self.variables[i]: data[i, 0]})
@@ -1203,6 +1151,10 @@ class pz_solution(solution, _mutable_data):
                (self.netlist_title, self.netlist_file, list(self.poles),
                 list(self.zeros))
 
+    def asarray(self):
+        """Return all data, in Re/Im form, as they are saved."""
+        return self._sdata.copy()
+
     # Access as a dictionary BY VARIABLE NAME:
     def __getitem__(self, name):
         """Get a specific variable, as from a dictionary."""
@@ -1235,28 +1187,6 @@ class pz_solution(solution, _mutable_data):
     def items(self):
         return self.data.items()
 
-    # iterator methods
-    def __iter__(self):
-        # take into account that we increment first, then return
-        # the value
-        self.iter_index = -1
-        return self
-
-    def __next__(self):
-        # redefine this or the superclass method will be used on
-        # PY3, calling the superclass' next() and not *our* next
-        # method below.
-        return self.next()
-
-    def next(self):
-        if self.iter_index == len(self.variables)-1:
-            self.iter_index = 0
-            raise StopIteration
-        else:
-            self.iter_index += 1
-        return self.variables[self.iter_index], \
-               self.data[self.variables[self.iter_index]]
-
 class case_insensitive_dict(object):
     """A dictionary that uses case-insensitive strings as keys.
     """
@@ -1322,7 +1252,10 @@ class case_insensitive_dict(object):
     def update(self, adict):
         """Update the dictionary contents with the mapping in the dictionary ``adict``.
         """
-        return self._dict.update(adict)
+        names = dict((k.upper(), k) for k in self._dict)
+        for key, value in adict.items():
+            key = names.setdefault(key.upper(), key)
+            self._dict[key] = value
 
     # iterator methods
     def __iter__(self):
-- 
2.43.0


From 579ebb23f443b8396043b3c7120a1698abc2e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 40/64] fix: run() of an empty list ran the queue, a failing
 analysis left the queue full

---
 ahkab/ahkab.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index d1a199b..579b796 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -705,8 +705,10 @@ def run(circ, an_list=None):
     """
     results = {}
 
-    if not an_list:
-        an_list = _queue
+    if an_list is None:
+        # empty the queue, whatever happens to the analyses
+        an_list = _queue[:]
+        del _queue[:]
     else:
         an_list = copy.deepcopy(an_list)
         if type(an_list) == tuple:
-- 
2.43.0


From 2361ad9a807002c5d5cd3de2ccf386f6ad8e6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 41/64] fix: AC analysis: a logarithmic sweep from a negative
 frequency is a value error

---
 ahkab/ac.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/ac.py b/ahkab/ac.py
index 6347b49..22af0d4 100644
--- a/ahkab/ac.py
+++ b/ahkab/ac.py
@@ -210,6 +210,8 @@ def ac_analysis(circ, start, points, stop, sweep_type=None,
     if sweep_type is None:
         sweep_type = options.ac_log_step
     if sweep_type.upper() == options.ac_log_step:
+        if not start > 0:
+            raise ValueError("Logarithmic AC sweeps need positive frequencies.")
         omega_iter = utilities.log_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
     elif sweep_type.upper() == options.ac_lin_step:
         omega_iter = utilities.lin_axis_iterator(2*np.pi*start, 2*np.pi*stop, points)
-- 
2.43.0


From 35295d12ca4298eaa1708147ad11835f8b07f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 42/64] fix: MOS models: changing the temperature twice
 compounded its effects, cached values survived it

---
 ahkab/ekv.py  |  9 ++++++---
 ahkab/mosq.py | 12 +++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ahkab/ekv.py b/ahkab/ekv.py
index 5c3db0f..6a5d4f2 100644
--- a/ahkab/ekv.py
+++ b/ahkab/ekv.py
@@ -432,6 +432,8 @@ class ekv_mos_model:
             float(TCV) if TCV is not None else self.NPMOS * TCV_DEFAULT
         self.BEX = float(BEX) if BEX is not None else BEX_DEFAULT
 
+        # the parameters at the temperature they are given for
+        self._nominal = (self.VTO, self.KP, self.PHI)
         self.set_device_temperature(constants.T)
 
         # Setup switches
@@ -449,9 +451,10 @@ class ekv_mos_model:
         Correspondingly, ``VTO``, ``KP`` and ``PHI`` get updated.
         """
         self.TEMP = T
-        self.VTO = self.VTO - self.TCV * (T - self.TNOM)
-        self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = self.PHI * T / self.TNOM + 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
+        VTO, KP, PHI = self._nominal
+        self.VTO = VTO - self.TCV * (T - self.TNOM)
+        self.KP = KP * (T / self.TNOM) ** self.BEX
+        self.PHI = PHI * T / self.TNOM + 3.0 * constants.Vth(self.TNOM) * math.log(T / self.TNOM) \
             - constants.si.Eg(
                 self.TNOM) * T / self.TNOM + constants.si.Eg(T)
 
diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 0793d19..5ffae88 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -497,6 +497,8 @@ class mosq_mos_model(object):
         self.AVT = AVT if AVT is not None else AVT_DEFAULT
         self.AKP = AKP if AKP is not None else AKP_DEFAULT
 
+        # the parameters at the temperature they are given for
+        self._nominal = (self.VTO, self.KP, self.PHI)
         self.set_device_temperature(constants.T)
 
         sc, sc_reason = self._self_check()
@@ -517,11 +519,15 @@ class mosq_mos_model(object):
         Correspondingly, ``VTO``, ``KP`` and ``PHI`` get updated.
         """
         self.TEMP = T
-        self.VTO = self.VTO - self.TCV * (T - self.TNOM)
-        self.KP = self.KP * (T / self.TNOM) ** self.BEX
-        self.PHI = (self.PHI * T / self.TNOM + 3 * constants.Vth(self.TNOM) *
+        VTO, KP, PHI = self._nominal
+        self.VTO = VTO - self.TCV * (T - self.TNOM)
+        self.KP = KP * (T / self.TNOM) ** self.BEX
+        self.PHI = (PHI * T / self.TNOM + 3 * constants.Vth(self.TNOM) *
                     math.log(T / self.TNOM) - constants.si.Eg(self.TNOM) * T /
                     self.TNOM + constants.si.Eg(T))
+        # what was calculated at another temperature does not hold any more
+        for method in (self.get_ids, self.get_gmd, self.get_gm, self.get_gmb):
+            method.__self__.clear()
 
     def get_device_temperature(self):
         """Returns the temperature of the device - in K.
-- 
2.43.0


From c69d9d0a42be199fb8bddc5b5e89f953652269e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 43/64] fix: a node voltage and a source with the same name are
 different symbols

---
 ahkab/results.py  | 5 ++++-
 ahkab/symbolic.py | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 9b9c44b..9adf7e9 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -923,13 +923,16 @@ class symbolic_solution(object):
             self.results.update({str(symbol):result})
 
         # keep them, they're useful (the keys of transfer functions are strings)
-        self._symbols = [] if tf else list(results_dict.keys())
+        self._symbols = []
         for expr in list(results_dict.values()):
             if tf:
                 expr = expr['gain']
             for symb in expr.atoms():
                 if symb.is_Symbol and symb not in self._symbols:
                     self._symbols.append(symb)
+        if not tf:
+            # last: the symbol V1 in the expressions is the source V1
+            self._symbols += list(results_dict.keys())
         self.filename = outfile if outfile != 'stdout' else None
         if self.filename is not None:
             self.save()
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 007fb13..aab2585 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -281,9 +281,13 @@ def get_variables(circ):
 
     for i in range(mna_size):
         if i < nv_1:
-            x[i, 0] = _symbol_factory("V" + str(circ.nodes_dict[i + 1]))
+            # the assumption tells the voltage of the node '1' from the source
+            # V1, which is named alike.
+            x[i, 0] = _symbol_factory("V" + str(circ.nodes_dict[i + 1]),
+                                      complex=True)
         else:
-            x[i, 0] = _symbol_factory("I[" + idescr[i - nv_1] + "]")
+            x[i, 0] = _symbol_factory("I[" + idescr[i - nv_1] + "]",
+                                      complex=True)
     return x
 
 
-- 
2.43.0


From 341fd12d47c42e373a4742125d82bc4f0a8c0bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 44/64] fix: symbolic stamp of a voltage-defined element across
 one node

---
 ahkab/symbolic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index aab2585..ae5083e 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -482,11 +482,11 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
             mna = _expand_matrix(mna, add_a_row=True, add_a_col=True)
             N = _expand_matrix(N, add_a_row=True, add_a_col=False)
             # KCL
-            mna[elem.n1, index] = +1
-            mna[elem.n2, index] = -1
+            mna[elem.n1, index] += +1
+            mna[elem.n2, index] += -1
             # KVL
-            mna[index, elem.n1] = +1
-            mna[index, elem.n2] = -1
+            mna[index, elem.n1] += +1
+            mna[index, elem.n2] += -1
             if isinstance(elem, components.sources.VSource):
                 if elem.is_symbolic:
                     VDC = _symbol_factory(elem.part_id.upper())
-- 
2.43.0


From bf1b9bd74d9faac384747d550259c71a135a4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 45/64] fix: symbolic analysis of a CCVS that comes before its
 sensing source

---
 ahkab/symbolic.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index ae5083e..e2cfa3c 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -505,14 +505,8 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 mna[index, elem.sn1] = mna[index, elem.sn1] - alpha
                 mna[index, elem.sn2] = mna[index, elem.sn2] + alpha
             elif isinstance(elem, components.sources.HVSource):
-                if elem.is_symbolic:
-                    alpha = _symbol_factory(elem.part_id.upper(), real=True)
-                    if alpha in subs:  # instant substitution
-                        alpha = subs[alpha]
-                else:
-                    alpha = elem.alpha
-                source_index = circ.find_vde_index(elem.source_id)
-                mna[index, n_of_nodes + source_index] = +alpha
+                # the term is added after all VDEs have been accounted for
+                pass
             elif isinstance(elem, components.Inductor):
                 if ac:
                     if elem.is_symbolic:
@@ -564,6 +558,16 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 F = elem.alpha
             mna[elem.n1, pre_vde + source_current_index] += +F
             mna[elem.n2, pre_vde + source_current_index] += -F
+        elif isinstance(elem, components.sources.HVSource):
+            if elem.is_symbolic:
+                alpha = _symbol_factory(elem.part_id.upper(), real=True)
+                if alpha in subs:  # instant substitution
+                    alpha = subs[alpha]
+            else:
+                alpha = elem.alpha
+            this_index = circ.find_vde_index(elem.part_id, verbose=0)
+            source_index = circ.find_vde_index(elem.source_id, verbose=0)
+            mna[pre_vde + this_index, pre_vde + source_index] += +alpha
         else:
             pass
 
-- 
2.43.0


From 59a3736c72834b7dacbe9bf5c5794fe899729dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 46/64] fix: values of non-symbolic VCCS and inductor couplings

---
 ahkab/symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index e2cfa3c..a768a9c 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -423,7 +423,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                 if alpha in subs:  # instant substitution
                     alpha = subs[alpha]
             else:
-                alpha = elem.value
+                alpha = elem.alpha
             mna[elem.n1, elem.sn1] = mna[elem.n1, elem.sn1] + alpha
             mna[elem.n1, elem.sn2] = mna[elem.n1, elem.sn2] - alpha
             mna[elem.n2, elem.sn1] = mna[elem.n2, elem.sn1] - alpha
@@ -538,7 +538,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                     if M in subs:  # instant substitution
                         M = subs[M]
                 else:
-                    M = cd.K
+                    M = cd.M
                 # get `part_id` of the other inductor (eg. "L32")
                 other_id_wdescr = cd.get_other_inductor(elem.part_id)
                 # find its index to know which column corresponds to
-- 
2.43.0


From 82a206b41ccdc078531770b8879218c31c2e5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 47/64] fix: substitutions employ the symbols of the elements

---
 ahkab/symbolic.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a768a9c..eec6b98 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -598,12 +598,6 @@ def _parse_substitutions(sdict):
 
     This method is typically called by :func:`symbolic_analysis`.
 
-    .. note::
-
-        For what regards the resistors, the method will check the value
-        of ``options.symb_formulate_with_gs`` and convert the resistors
-        to conductances as needed, according to the option value.
-
     **Parameters:**
 
     sdict : a dict of strings
@@ -619,23 +613,20 @@ def _parse_substitutions(sdict):
     """
     subs = {}
     for v1, v2 in py3compat.iteritems(sdict):
-        if v1[0].upper() == 'R' and options.symb_formulate_with_gs:
-            letter_id1 = 'G' + _COND_POSTFIX
-            letter_id2 = 'G' + _COND_POSTFIX
-        else:
-            letter_id1 = v1[0].upper()
-            letter_id2 = v2[0].upper()
-        if letter_id1[0] in ('R', 'G', 'L', 'C', 'M'):
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True, positive=True)
-        else:
-            s1 = _symbol_factory(letter_id1 + v1[1:], real=True)
-        if letter_id2[0] in ('R', 'G', 'L', 'C', 'M'):
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True, positive=True)
-        else:
-            s2 = _symbol_factory(letter_id2 + v2[1:], real=True)
-        subs.update({s1:s2})
+        subs.update({_symbol_from_id(v1):_symbol_from_id(v2)})
     return subs
 
+def _symbol_from_id(name):
+    """The symbol ``name`` as it is used in :func:`generate_mna_and_N`."""
+    if name[:3].upper() in ('GM_', 'R0_') or name[0].upper() in 'RCLK':
+        return _symbol_factory(name, real=True, positive=True)
+    elif name[:2].upper() == 'GD':
+        return _symbol_factory(name, positive=True)
+    elif name[0].upper() in 'VI':
+        return _symbol_factory(name)
+    else:
+        return _symbol_factory(name, real=True)
+
 def _symbol_factory(name, **options):
     filtered_options = {}
     for i in options:
-- 
2.43.0


From 0b755e6d707a618f6de7d5e1ea019a26e9190806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:15 +0000
Subject: [PATCH 48/64] fix: symbolic analysis without solutions, printing on
 Python 3

---
 ahkab/printing.py | 4 ++--
 ahkab/symbolic.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ahkab/printing.py b/ahkab/printing.py
index e08f460..e47d578 100644
--- a/ahkab/printing.py
+++ b/ahkab/printing.py
@@ -279,7 +279,7 @@ def print_symbolic_results(x):
 
     """
     keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys.sort(key=str)
     for key in keys:
         print(str(key) + "\t = " + str(x[key]))
 
@@ -299,7 +299,7 @@ def print_symbolic_transfer_functions(x):
         expressions of the singularities.
     """
     keys = list(x.keys())
-    keys.sort(lambda x, y: cmp(str(x), str(y)))
+    keys.sort(key=str)
     for key in keys:
         print(str(key) + " = " + str(x[key]['gain']))
         print('\tDC: ' + str(x[key]['gain0']))
diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index eec6b98..a5cb700 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -188,6 +188,10 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     sol = sympy.solve(
             eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
 
+    if not sol:
+        # sympy returns a list if there is no solution
+        sol = {}
+
     for ks in list(sol.keys()):
         sol.update({ks: sol[ks].subs(subs_g)})
 
-- 
2.43.0


From fbd7c2d2264e2b55932f2bad4cc4455bcd0f66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:07 +0000
Subject: [PATCH 49/64] fix: value of a non-symbolic inductor

---
 ahkab/symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index a5cb700..0a2f4d3 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -519,7 +519,7 @@ def generate_mna_and_N(circ, opts, ac=False, subs=None, verbose=3):
                         if L in subs:  # instant substitution
                             L = subs[L]
                     else:
-                        L = elem.L
+                        L = elem.value
                     mna[index, index] = -s * L
                 else:
                     pass
-- 
2.43.0


From 83c5cc4491704ba0ea4b3f34dbbe56f567b9e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 50/64] fix: .FFT start and stop were exchanged, no np meant
 two points

---
 ahkab/fourier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index 3740f30..b980d84 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -53,7 +53,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'stop',
+                          'dest':'start',
                           'default':None
                          },
                          {
@@ -61,7 +61,7 @@ specs = {'fft':{'tokens':({
                           'pos':None,
                           'type':float,
                           'needed':False,
-                          'dest':'start',
+                          'dest':'stop',
                           'default':None
                          },
                          {
@@ -86,7 +86,7 @@ specs = {'fft':{'tokens':({
                           'type':float,
                           'needed':False,
                           'dest':'np',
-                          'default':0
+                          'default':1024
                          },
                          {
                           'label':'format',
-- 
2.43.0


From 430b992ecfcd348c532b736f54eaf6a2196b9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 51/64] fix: Fourier analysis: integer numbers of points, the
 documented harmonics and data length

---
 ahkab/fourier.py | 53 +++++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/ahkab/fourier.py b/ahkab/fourier.py
index b980d84..48b976d 100644
--- a/ahkab/fourier.py
+++ b/ahkab/fourier.py
@@ -192,21 +192,21 @@ def fourier(label, tran_results, fund):
         else:
             data = tran_results[label[0]] - tran_results[label[1]]
             label = '%s - %s' % (label[0], label[1])
-    ps = []
-    for i in range(1, 10, 2):
-        ps += [(tran_results.tstop - tran_results.tstart) // (i/fund)]
-    ps = [i for i in ps if i > 0]
-    nperiods = ps[int(np.ceil(len(ps)-1))]
+    periods = (tran_results.tstop - tran_results.tstart)*fund
+    if periods < 1 - 1e-6:
+        raise ValueError("fourier(): the data is shorter than one period of " +
+                         "the fundamental, %g Hz." % fund)
+    nperiods = max(1, int(periods/2))
     # setup start & stop accordingly
     start = tran_results.tstop - nperiods/fund
     stop = tran_results.tstop
     # 10 points, remember?
     sampling = 1./(2*10*fund)
-    t = np.linspace(start, stop, (stop-start)//sampling, endpoint=False)
+    t = np.linspace(start, stop, 2*10*nperiods, endpoint=False)
     idata = InterpolatedUnivariateSpline(tran_results.get_x(), data, k=2)
     f = fft.fftfreq(len(t), sampling)[::nperiods]
     F = fft.rfft(idata(t))[:-1:nperiods]
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     THD = np.sqrt(sum(abs(F[2:])**2))/abs(F[1])
     return f, F, THD
 
@@ -336,23 +336,13 @@ def spicefft(label, tran_results, freq=None, **args):
         else:
             data = tran_results[label[0]] - tran_results[label[1]]
             label = '%s - %s' % (label[0], label[1])
-    if 'start' not in args and 'from' not in args:
-        start = tran_results.tstart
-    elif 'start' in args and args['start'] is not None:
-        start = args['start']
-    elif args['from'] is not None:
-        start = args['from']
-    else:
-        start = tran_results.tstart
-
-    if 'stop' not in args and 'to' not in args:
-        stop = tran_results.tstop
-    elif 'stop' in args and args['stop'] is not None:
-        stop = args['stop']
-    elif args['to'] is not None:
-        stop = args['to']
-    else:
-        stop = tran_results.tstop
+    start, stop = tran_results.tstart, tran_results.tstop
+    for name in ('from', 'start'):
+        if args.get(name) is not None:
+            start = args[name]
+    for name in ('to', 'stop'):
+        if args.get(name) is not None:
+            stop = args[name]
 
     if 'np' not in args:
         np2 = 1024
@@ -383,13 +373,16 @@ def spicefft(label, tran_results, freq=None, **args):
     fmax = args['fmax'] if 'fmax' in args else None
 
     if freq:
-        nperiods = int((stop-start)*freq)
+        nperiods = int((stop-start)*freq + 1e-6)
+        if nperiods < 1:
+            raise ValueError("fft(): the data is shorter than one period of " +
+                             "the fundamental, %g Hz." % freq)
         # adjust start so we have an integer number
         # of periods
         start = stop - nperiods/freq
-        sampling = 1./(2*freq*nperiods)
-        t = np.linspace(start, stop, ((stop-start)//sampling + 1),
-                        endpoint=False)
+        # up to the 9th harmonic
+        sampling = 1./(2*10*freq)
+        t = np.linspace(start, stop, 2*10*nperiods, endpoint=False)
     else:
         sampling = (stop-start)/np2
         t = np.linspace(start, stop, np2, endpoint=False)
@@ -404,11 +397,11 @@ def spicefft(label, tran_results, freq=None, **args):
               options.GAUSS_WINDOW: lambda x: gaussian(x, std=alpha),
               options.KAISER_WINDOW: lambda x: kaiser(x, beta=alpha)}
     f = fft.fftfreq(len(t), sampling)
-    f = f[:len(f)/2]
+    f = f[:len(f)//2]
     F = fft.rfft(idata(t)*window[window_type](len(t)))[:-1]
     if freq:
         # downsample
-        f = f[::nperiods]
+        f = freq*np.arange(10)
         F = F[::nperiods]
     if fmin is not None and fmin > 0:
         if fmin > f.max():
-- 
2.43.0


From 8a70b2ae91417c273fde5365a5d183906b09b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 52/64] fix: Gear methods: factorial is in scipy.special

---
 ahkab/gear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/gear.py b/ahkab/gear.py
index b9b0962..cf1c58c 100644
--- a/ahkab/gear.py
+++ b/ahkab/gear.py
@@ -85,7 +85,7 @@ from __future__ import (unicode_literals, absolute_import,
 import numpy as np
 import sys
 
-from scipy.misc import factorial
+from scipy.special import factorial
 
 from . import printing
 
-- 
2.43.0


From 8656247b8b05a128a5eec07b988ac186c5944f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 53/64] fix: --dc-guess none was taken as guess

---
 ahkab/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ahkab/__main__.py b/ahkab/__main__.py
index db00f8d..06f96b4 100755
--- a/ahkab/__main__.py
+++ b/ahkab/__main__.py
@@ -147,7 +147,7 @@ def _cli():
         sys.exit(23)
 
     options.transient_no_step_control = cli_options.no_step_control
-    options.dc_use_guess = cli_options.dc_guess
+    options.dc_use_guess = cli_options.dc_guess.lower() != 'none'
     options.cli = True
     ahkab._print = cli_options.print_circuit
 
-- 
2.43.0


From 749889fff42221c119be5e4b6dab4835c89fff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 54/64] fix: results printed to stdout could not be read back,
 .FOUR and .FFT crashed

---
 ahkab/results.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/ahkab/results.py b/ahkab/results.py
index 9adf7e9..3739c37 100644
--- a/ahkab/results.py
+++ b/ahkab/results.py
@@ -96,7 +96,10 @@ Module reference
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import atexit
+import os
 import sys
+import tempfile
 import time
 import pickle
 import re
@@ -120,7 +123,18 @@ class _mutable_data(object):
         self._init_file_done = False
     def _add_data(self, data):
         """Add the data matrix to the results set."""
-        csvlib.write_csv(self.filename, data, self.variables, append=self._init_file_done)
+        self._write(data, self.variables)
+
+    def _write(self, data, headers):
+        csvlib.write_csv(self.filename, data, headers, append=self._init_file_done)
+        if self.filename == 'stdout':
+            # what is printed out can't be read back: keep a copy of it
+            if self._copy is None:
+                tmpfile = tempfile.NamedTemporaryFile(suffix='.dat', delete=False)
+                self._copy = tmpfile.name
+                tmpfile.close()
+                atexit.register(os.remove, self._copy)
+            csvlib.write_csv(self._copy, data, headers, append=self._init_file_done)
         self._init_file_done = True
 
 
@@ -150,6 +164,7 @@ class solution(object):
         self.temp = constants.T
         self.filename = outfile
         self._init_file_done = False
+        self._copy = None           # of the data printed to stdout
 
         self.skip_nodes_list = []   # nodi da saltare, solo interni
         self.variables = []
@@ -165,7 +180,7 @@ class solution(object):
             This method loads to memory a possibly huge data matrix.
 
         """
-        data, _, _, _ = csvlib.load_csv(self.filename, load_headers=[],
+        data, _, _, _ = csvlib.load_csv(self._copy or self.filename, load_headers=[],
                                         verbose=0)
         return data
 
@@ -178,7 +193,7 @@ class solution(object):
         """Get a specific variable, as from a dictionary."""
         # data, headers, pos, EOF = csvlib.load_csv(...)
         try:
-            data, _, _, _ = csvlib.load_csv(self.filename, load_headers=[name],
+            data, _, _, _ = csvlib.load_csv(self._copy or self.filename, load_headers=[name],
                                             nsamples=None, skip=0, verbose=0)
         except ValueError:
             raise KeyError(name)
@@ -188,7 +203,7 @@ class solution(object):
         """Get a solution by variable name."""
         try:
             # data, headers, pos, EOF = csvlib.load_csv(...)
-            data, _, _, _ = csvlib.load_csv(self.filename, load_headers=[name],
+            data, _, _, _ = csvlib.load_csv(self._copy or self.filename, load_headers=[name],
                                             nsamples=None, skip=0, verbose=0)
         except ValueError:
             return default
@@ -209,7 +224,7 @@ class solution(object):
     def values(self):
         """Get all of the results set's variables values."""
         # data, headers, pos, EOF = csvlib.load_csv(...)
-        data, _, _, _ = csvlib.load_csv(self.filename,
+        data, _, _, _ = csvlib.load_csv(self._copy or self.filename,
                                         load_headers=self.variables,
                                         nsamples=None, skip=0, verbose=0)
         values = [data[i, :] for i in range(data.shape[0])]
@@ -559,8 +574,7 @@ class ac_solution(solution, _mutable_data):
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in ABS and PHASE."""
-        csvlib.write_csv(self.filename, data, self.csv_headers, append=self._init_file_done)
-        self._init_file_done = True
+        self._write(data, self.csv_headers)
 
     def __str__(self):
         return ("<AC simulation results for '%s' (netlist %s). %s sweep, " +
@@ -591,7 +605,7 @@ class ac_solution(solution, _mutable_data):
     def asarray(self):
         """Return all data as a (possibly huge) python matrix."""
         ## data, headers, pos, EOF = csvlib.load_csv()
-        data, headers, _, _ = csvlib.load_csv(self.filename, load_headers=[],
+        data, headers, _, _ = csvlib.load_csv(self._copy or self.filename, load_headers=[],
                                               nsamples=None, skip=0, verbose=0)
         cplx_data = None
         cplx_headers = []
@@ -630,7 +644,7 @@ class ac_solution(solution, _mutable_data):
             headers = [name]
         try:
             # data, headers, pos, EOF = csvlib.load_csv()
-            data, headers, _, _ = csvlib.load_csv(self.filename,
+            data, headers, _, _ = csvlib.load_csv(self._copy or self.filename,
                                                   load_headers=headers,
                                                   nsamples=None, skip=0,
                                                   verbose=0)
@@ -880,7 +894,7 @@ class pss_solution(solution, _mutable_data):
         self._add_data(data)
 
     def asarray(self):
-        allvalues, _, _, _ = csvlib.load_csv(self.filename, load_headers=[],
+        allvalues, _, _, _ = csvlib.load_csv(self._copy or self.filename, load_headers=[],
                                              nsamples=None, skip=0, verbose=0)
         return allvalues
 
@@ -1145,8 +1159,7 @@ class pz_solution(solution, _mutable_data):
 
     def _add_data(self, data):
         """Remember to call this method with REAL data - already split in RE and IM."""
-        csvlib.write_csv(self.filename, data, self.csv_headers, append=self._init_file_done)
-        self._init_file_done = True
+        self._write(data, self.csv_headers)
 
     def __str__(self):
         return ("PZ simulation results for %s (netlist %s).\n" + \
-- 
2.43.0


From 8b5a61ff90087185bfa68dbd80fb746aee80dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 55/64] fix: the shooting analysis left a file behind

---
 ahkab/shooting.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ahkab/shooting.py b/ahkab/shooting.py
index ed9ab22..201c3f7 100644
--- a/ahkab/shooting.py
+++ b/ahkab/shooting.py
@@ -22,6 +22,9 @@
 from __future__ import (unicode_literals, absolute_import,
                         division, print_function)
 
+import os
+import tempfile
+
 import numpy as np
 import numpy.linalg
 
@@ -150,13 +153,19 @@ def shooting_analysis(circ, period, step=None, x0=None, points=None, autonomous=
     printing.print_info_line(("Starting TRAN analysis for algorithm init: " +
                               ("stop=%g, step=%g... " % (10*points*step, step)),
                               3), verbose, print_nl=False)
-    xtran = transient.transient_analysis(circ=circ, tstart=0, tstep=step,
-                                         tstop=10*points*step, method="TRAP",
-                                         x0=None, mna=mna, N=Tf, D=D,
-                                         use_step_control=False,
-                                         outfile=outfile+".tran",
-                                         return_req_dict={"points": points},
-                                         verbose=0)
+    # the data saved by this analysis are of no use to the user
+    tmpfile = tempfile.NamedTemporaryFile(suffix='.tran', delete=False)
+    tmpfile.close()
+    try:
+        xtran = transient.transient_analysis(circ=circ, tstart=0, tstep=step,
+                                             tstop=10*points*step, method="TRAP",
+                                             x0=None, mna=mna, N=Tf, D=D,
+                                             use_step_control=False,
+                                             outfile=tmpfile.name,
+                                             return_req_dict={"points": points},
+                                             verbose=0)
+    finally:
+        os.remove(tmpfile.name)
     if xtran is None:
         print("failed.")
         return None
-- 
2.43.0


From 4b7fa5ba790a518c56c40d79af57722ee5bb61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 56/64] fix: DC guess assigned to the wrong nodes

---
 ahkab/dc_guess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_guess.py b/ahkab/dc_guess.py
index e300003..776b925 100644
--- a/ahkab/dc_guess.py
+++ b/ahkab/dc_guess.py
@@ -209,7 +209,8 @@ def get_dc_guess(circ, verbose=3):
     # 2. Append to each vector of guesses the values for currents in
     #    voltage defined elem.
     # Both them are set to 0
-    for index in removed_index:
+    # (the lowest indices first, or they would be shifted)
+    for index in reversed(removed_index):
         Rp = np.concatenate((np.concatenate((Rp[:index, 0].reshape((-1, 1)),
                                              np.zeros((1, 1))), axis=0),
                              Rp[index:, 0].reshape((-1, 1))), axis=0)
-- 
2.43.0


From 2e86b9665643e36ba971d76c959c30da2f4439c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 57/64] fix: operating point report of p-channel and reversed
 square-law MOS

---
 ahkab/mosq.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ahkab/mosq.py b/ahkab/mosq.py
index 5ffae88..4491805 100644
--- a/ahkab/mosq.py
+++ b/ahkab/mosq.py
@@ -255,19 +255,21 @@ class mosq_device(object):
             or 'gm' not in self.opdict or 'gmb' not in self.opdict \
             or 'Ids' not in self.opdict or 'SAT' not in self.opdict:
 
-            vds, vgs, _ = ports_v[0]
+            # the regions are those of the equivalent n-channel device with VDS >= 0
+            (vds, vgs, vbs), _ = self.mosq_model.get_voltages(*ports_v[0])
+            VT = self.mosq_model.get_VT((vds, vgs, vbs), self.device)
             self.opdict['state'] = ports_v[0]
             gstamp = self.gstamp(ports_v[0], reduced=False)[1]
             self.opdict['gmd'] = gstamp[0, 0]
             self.opdict['gm'] = gstamp[0, 1]
             self.opdict['gmb'] = gstamp[0, 3]
             self.opdict['Ids'] = self.istamp(ports_v[0], reduced=False)[1][0]
-            self.opdict.update({'VTH':self.mosq_model.get_VT(ports_v[0], self.device)})
+            self.opdict.update({'VTH':self.mosq_model.NPMOS*VT})
             self.opdict.update({'W':self.device.W, 'L':self.device.L,
-                                'ON':(vgs >= self.opdict['VTH'])})
+                                'ON':(vgs >= VT)})
             self.opdict.update({'beta':.5*self.mosq_model.KP*self.device.W/self.device.L})
-            self.opdict.update({'VOD':self.mosq_model.NPMOS*(vgs - self.opdict['VTH']),
-                                'SAT':vds > vgs - self.opdict['VTH']})
+            self.opdict.update({'VOD':vgs - VT,
+                                'SAT':vds > vgs - VT})
         else:
             pass
             #already up to date
-- 
2.43.0


From 5debe87a1d2d3efe03d57b5bac8e1b8d1efcd82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 58/64] fix: DC guess of an element with a shorted port given
 to the wrong port

---
 ahkab/dc_guess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ahkab/dc_guess.py b/ahkab/dc_guess.py
index 776b925..613574e 100644
--- a/ahkab/dc_guess.py
+++ b/ahkab/dc_guess.py
@@ -92,8 +92,7 @@ def get_dc_guess(circ, verbose=3):
             if not one_element_with_dc_guess_found:
                 one_element_with_dc_guess_found = True
             if elem.is_nonlinear:
-                port_index = 0
-                for (n1, n2) in elem.ports:
+                for port_index, (n1, n2) in enumerate(elem.ports):
                     if n1 == n2:
                         continue
                     if index:
@@ -104,7 +103,6 @@ def get_dc_guess(circ, verbose=3):
                     M[index, n1] = +1
                     M[index, n2] = -1
                     T[index] = elem.dc_guess[port_index]
-                    port_index = port_index + 1
                     index = index + 1
             else:
                 if elem.n1 == elem.n2:
-- 
2.43.0


From 3242f5b10e850e3645d2b72e75904fd328600ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 59/64] fix: plots of nodes with names like n-1, unknown
 signals, missing analyses, V(0,n)

---
 ahkab/ahkab.py          |  2 +-
 ahkab/netlist_parser.py |  2 ++
 ahkab/plotting.py       | 25 ++++++++++++++++++-------
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/ahkab/ahkab.py b/ahkab/ahkab.py
index 579b796..3a5a683 100644
--- a/ahkab/ahkab.py
+++ b/ahkab/ahkab.py
@@ -849,7 +849,7 @@ def process_postproc(postproc_list, title, results, outfilename):
     for index, postproc in enumerate(postproc_list):
         if postproc['type'] == "plot" and not skip_plots:
             plotting.plot_results(title, postproc["l2l1"],
-                                  results[postproc["analysis"]],
+                                  results.get(postproc["analysis"]),
                                   "%s-%d.%s" % (outfilename, index,
                                                 options.plotting_outtype))
             show_plots = True
diff --git a/ahkab/netlist_parser.py b/ahkab/netlist_parser.py
index 090439a..521da1a 100644
--- a/ahkab/netlist_parser.py
+++ b/ahkab/netlist_parser.py
@@ -1371,6 +1371,8 @@ def parse_postproc(circ, postproc_direc):
 
                 graph_labels = ""
                 for glabel in line_elements[2:]:
+                    if glabel[0] == '*':
+                        break
                     graph_labels = graph_labels + " " + glabel
 
                 # one label or two per plot
diff --git a/ahkab/plotting.py b/ahkab/plotting.py
index 2a3ee53..a042880 100644
--- a/ahkab/plotting.py
+++ b/ahkab/plotting.py
@@ -49,7 +49,10 @@ except ImportError:
 def _split_netlist_label(labels_string):
     labels_string = labels_string.strip().upper()
     ret_labels = []
-    p = re.compile(r'V\s*\(\s*(\w*)\s*,\s*(\w*)\s*\)', re.IGNORECASE)
+    name = r'([^\s,()]+)'
+    left = labels_string
+    p = re.compile(r'V\s*\(\s*%s\s*,\s*%s\s*\)' % (name, name), re.IGNORECASE)
+    left = p.sub(',', left)
     labels_list = p.findall(labels_string)
     for i in range(len(labels_list)):
         l2 = "V" + labels_list[i][0]
@@ -58,19 +61,21 @@ def _split_netlist_label(labels_string):
             ret_labels.append((l2, l1))
         else:
             ret_labels.append((l2,))
-    p = re.compile(r'V\s*\(\s*(\w*)\s*\)', re.IGNORECASE)
+    p = re.compile(r'V\s*\(\s*%s\s*\)' % name, re.IGNORECASE)
+    left = p.sub(',', left)
     labels_list = p.findall(labels_string)
     for i in range(len(labels_list)):
         l2 = "V" + labels_list[i]
         l1 = None
         ret_labels.append((l2, l1))
-    p = re.compile(r'I\s*\(\s*(\w*)\s*\)', re.IGNORECASE)
+    p = re.compile(r'I\s*\(\s*%s\s*\)' % name, re.IGNORECASE)
+    left = p.sub(',', left)
     labels_list = p.findall(labels_string)
     for i in range(len(labels_list)):
         l2 = "I(" + labels_list[i] + ")"
         l1 = None
         ret_labels.append((l2, l1))
-    if len(ret_labels) == 0:
+    if len(ret_labels) == 0 or left.strip(' ,|\t'):
         raise ValueError("Unrecognized plot labels: " + labels_string)
     return ret_labels
 
@@ -160,6 +165,9 @@ def save_figure(filename, fig=None):
 
 def _data_abs_arg_pass(res, label):
     # extract abs / phase if needed or pass the data
+    if label.strip('|').upper() == 'V0':
+        # the reference node
+        return np.zeros(np.shape(res.get_x())), 'V'
     if label[0] == label[-1] == '|':
         data = np.absolute(res[label[1:-1]])
         units = res.units[label[1:-1]]
@@ -198,7 +206,6 @@ def plot_results(title, y2y1_list, results, outfilename=None):
     if results is None:
         printing.print_warning("No results available for plotting. Skipping.")
         return
-    fig = pylab.figure(figsize=options.plotting_display_figsize)
     analysis = results.sol_type.upper()
     gdata = []
     x, xlabel = results.get_x(), results.get_xlabel()
@@ -209,7 +216,7 @@ def plot_results(title, y2y1_list, results, outfilename=None):
         if y1label is not None and y1label != '':
             try:
                 data1, _ = _data_abs_arg_pass(results, y1label)
-            except ValueError as e:
+            except (ValueError, KeyError) as e:
                 printing.print_warning(str(e) + " " + y1label)
                 continue
             line_label = y2label + "-" + y1label
@@ -218,12 +225,16 @@ def plot_results(title, y2y1_list, results, outfilename=None):
             data1 = 0
         try:
             data2, units = _data_abs_arg_pass(results, y2label)
-        except ValueError as e:
+        except (ValueError, KeyError) as e:
             printing.print_warning(str(e) + " " + y2label)
             continue
         yvu += [(line_label, units)]
         gdata.append((data2 - data1, line_label))
 
+    if not gdata:
+        printing.print_warning("Nothing to plot. Skipping.")
+        return
+    fig = pylab.figure(figsize=options.plotting_display_figsize)
     if xlabel == 'f':
         xlog = True
     else:
-- 
2.43.0


From 8d6531a1562df754691c8346b38cf722d1531b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:59 +0000
Subject: [PATCH 60/64] fix: test framework passed wrong data equal to the
 abscissa and missing analyses

---
 ahkab/testing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ahkab/testing.py b/ahkab/testing.py
index 5224b4d..2751011 100644
--- a/ahkab/testing.py
+++ b/ahkab/testing.py
@@ -576,7 +576,7 @@ class NetlistTest(unittest.TestCase):
         if hasattr(res, 'get_x'):
             x = res.get_x()
             for k in list(res.keys()):
-                if np.all(res[k] == x):
+                if k == res.get_xlabel():
                     continue
                 elif np.any(np.iscomplex(res[k])) or np.any(np.iscomplex(ref[k])):
                     # Interpolate Re and Im of the results to compare.
@@ -633,6 +633,8 @@ class NetlistTest(unittest.TestCase):
         """Run the test."""
         res = self._run_test()
         if not self.ref_run:
+            for t in self.types:
+                ok_(res.get(t) is not None, 'simulation %s gave no results' % t)
             for t in list(res.keys()):
                 ok_(t in self.ref_data, 'simulation %s not in the reference data' % t)
                 print("Checking results for %s analysis..." % t)
@@ -822,7 +824,7 @@ class APITest(unittest.TestCase):
         if hasattr(res, 'get_x'):
             x = res.get_x()
             for k in list(res.keys()):
-                if np.all(res[k] == x):
+                if k == res.get_xlabel():
                     continue
                 elif np.any(np.iscomplex(res[k])) or np.any(np.iscomplex(ref[k])):
                     # Interpolate Re and Im of the results to compare.
@@ -865,6 +867,8 @@ class APITest(unittest.TestCase):
         """Run the test."""
         res = self._run_test()
         if not self.ref_run:
+            for t in self.types:
+                ok_(res.get(t) is not None, 'simulation %s gave no results' % t)
             for t in list(res.keys()):
                 ok_(t in self.ref_data, 'simulation %s not in the reference data')
                 print("Checking results for %s analysis..." % t)
-- 
2.43.0


From 98b12502fa482f270c05bdd5c5b876ebaa04e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 61/64] fix: large circuits with a singular matrix crashed
 instead of falling back like small ones

---
 ahkab/dc_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index b373b44..84db808 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -830,7 +830,10 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
         residuo = mna.dot(x) + T + nonlinear_circuit*Tx
 
         if sparse:
-            lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            try:
+                lu = scipy.sparse.linalg.splu(scipy.sparse.csc_matrix(mna + nonlinear_circuit*J))
+            except RuntimeError as e: # how SuperLU reports a singular matrix
+                raise np.linalg.LinAlgError(str(e))
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-- 
2.43.0


From bcb1080229981ff7aead0ffc04a3bcd8079e20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:10 +0000
Subject: [PATCH 62/64] fix: circuits without a reference node gave wrong
 results or an IndexError

---
 ahkab/dc_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index 84db808..c767b99 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -1000,6 +1000,8 @@ def generate_mna_and_N(circ, verbose=3):
         The MNA matrix and constant term vector computed as per above.
 
     """
+    if 0 not in circ.nodes_dict:
+        raise circuit.CircuitError("The circuit has no reference node.")
     n_of_nodes = circ.get_nodes_number()
     mna = np.zeros((n_of_nodes, n_of_nodes))
     N = np.zeros((n_of_nodes, 1))
-- 
2.43.0


From 50e6200faf099fa6f66e71ebb8c56d28f7608ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 63/64] fix: symbolic analysis gave a partial solution for
 circuits without one

---
 ahkab/symbolic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ahkab/symbolic.py b/ahkab/symbolic.py
index 0a2f4d3..0b25227 100644
--- a/ahkab/symbolic.py
+++ b/ahkab/symbolic.py
@@ -188,8 +188,9 @@ def symbolic_analysis(circ, source=None, ac_enable=True, r0s=False, subs=None,
     sol = sympy.solve(
             eq, x, manual=options.symb_sympy_manual_solver, simplify=True)
 
-    if not sol:
-        # sympy returns a list if there is no solution
+    if not sol or [e for e in eq if e != True and not e.free_symbols & set(x)]:
+        # sympy returns a list if there is no solution and it ignores the
+        # equations without unknowns, eg a current source with no return path
         sol = {}
 
     for ks in list(sol.keys()):
-- 
2.43.0


From e5bed6fb7f29ca3eb3f22a1bed89956582ebd604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 64/64] fix: damping the first Newton iterations does not scale
 the solution of linear circuits

---
 ahkab/dc_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ahkab/dc_analysis.py b/ahkab/dc_analysis.py
index c767b99..8daf514 100644
--- a/ahkab/dc_analysis.py
+++ b/ahkab/dc_analysis.py
@@ -837,7 +837,9 @@ def mdn_solver(x, mna, circ, T, MAXIT, nv, locked_nodes, time=None,
             dx = lu.solve(-residuo)
         else:
             dx = np.linalg.solve(mna + nonlinear_circuit*J, -residuo)
-        x = x + get_td(dx, locked_nodes, n=iteration) * dx
+        # a linear circuit is solved in one full step: no damping
+        td = get_td(dx, locked_nodes, n=iteration) if nonlinear_circuit else 1
+        x = x + td * dx
         if not nonlinear_circuit:
             converged = True
             break
-- 
2.43.0

