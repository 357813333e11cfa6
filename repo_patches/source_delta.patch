From c923bfee2430cbc55143558cfdb27ebc9098a484 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 01/25] fix: nozzle no longer overwrites the saved default gas
 nor resets the current one

nozzle.__init__ called save_default()/restore_default() around a computation that does not
touch the default gas: it discarded the settings the user had saved.
---
 aerokit/instance/nozzle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..ac565cc 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -169,13 +169,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
-- 
2.43.0


From 2017e278a1f8d4ecc05df84ace35f2066b5955c5 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 02/25] fix: use the requested gamma in every step of the
 nozzle and total pressure ratio computations

nozzle(gamma=...) mixed its own gamma with the default one, and Pt_ratio(Mn, gamma) used the
default gamma for the downstream isentropic relation.
---
 aerokit/aero/ShockWave.py  |  2 +-
 aerokit/instance/nozzle.py | 37 +++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..b88e2d8 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,7 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index ac565cc..ef2bdd5 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -58,7 +58,7 @@ def NPR_shock_at_exit(AsAc):
     return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,15 +75,22 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma=gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma=gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma=gamma)
+    Msh = sw.downstream_Mn(Msup, gamma=gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma=gamma) / sw.Pi_ratio(Msup, gamma=gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma=gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
+def _Ms_shock_in_diffuser(AsAc, NPR, gamma):
+    """exit Mach number of a choked nozzle with a shock in the diffuser (internal function)"""
+    gmu = gamma - 1.0
+    K = NPR / AsAc / ((gamma + 1.0) / 2) ** ((gamma + 1.0) / 2 / gmu)
+    return np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+
+
 def Ms_from_AsAc_NPR(AsAc, NPR):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
@@ -169,7 +176,7 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, gamma=self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
@@ -185,7 +192,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -193,14 +200,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From 170d17092d94beaf6a37dd34d80660fd4ab4e647 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 03/25] fix: nozzle.set_NPR keeps the previous operating point
 when it fails

Mach, Ps and Ptot were overwritten one after the other while being computed, so a failed or
interrupted call left a mixture of two operating points.
---
 aerokit/instance/nozzle.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index ef2bdd5..3b64598 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -189,27 +189,29 @@ class nozzle:
         :param NPR: NPR value (>1)
 
         """
-        self._Pt = np.ones_like(self.AxoAc)
+        _Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma)
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
+            _M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma)
+            _Ps = _Pt / Is.PtPs_Mach(_M, gamma=self.gamma)
         else:
-            self._M = np.ones_like(self.AxoAc)
-            self._M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
-            self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
+            _M = np.ones_like(self.AxoAc)
+            _M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
+            _M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
                 Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
                 Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(
+                ish = np.abs(_M - Msh).argmin()
+                _M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
                 )
-                self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
+                _Pt[ish:] = Ptloss
+            _Ps = _Pt / Is.PtPs_Mach(_M, gamma=self.gamma)
+        # all or nothing: a failed or interrupted computation keeps the previous operating point
+        self._M, self._Ps, self._Pt = _M, _Ps, _Pt
 
     def Mach(self):
         return self._M
-- 
2.43.0


From 75318d8bd3cf767bbfbb4ff980267ae522482d51 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 04/25] fix: 1D states keep their gas when recomputed, indexed
 or accelerated

compute_from_pt_rtt_*, state[i] and state_isentropic_Mach silently went back to the default
gamma, and state_isentropic_Mach computed the pressure from the total temperature.
---
 aerokit/aero/model1D.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..938bf02 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,21 +50,21 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,12 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        gam = self._gamma[i] if np.size(self._gamma) > 1 else self._gamma
+        return state(self.rho[i], self.u[i], self.p[i], gam)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 5bde0f2f9cb8e20e7b5ac89eab1b53fb30f60e03 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 05/25] fix: inflow_pb keeps its previous solution when a
 resolution fails

---
 aerokit/instance/unsteady_inflow.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 4d4f8df..19daf84 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -94,16 +94,17 @@ class inflow_pb:
         def dpt(p):
             return self._pt0_from_pstar_rtt0(p, rtt0) - pt0
 
-        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
-        self._ustar = self._qR.u + self._delta_uR(self._pstar)
+        _pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
+        _ustar = self._qR.u + self._delta_uR(_pstar)
         # finalize qstarR state
-        if self._pstar > self._qR.p:
-            _rho = self._qR.rho_through_shock(self._pstar)
-            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+        if _pstar > self._qR.p:
+            _rho = self._qR.rho_through_shock(_pstar)
         else:
-            _rho = self._qR.rho_through_isentropic(self._pstar)
-            self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+            _rho = self._qR.rho_through_isentropic(_pstar)
+        _qstarR = uq.unsteady_state(rho=_rho, u=_ustar, p=_pstar, gamma=self._qR._gamma)
         #
-        self._qstarL = self._qR.copy()
-        self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)
+        _qstarL = self._qR.copy()
+        _qstarL.compute_from_pt_rtt_u(pt0, rtt0, _ustar)
+        # all or nothing: a failed or interrupted resolution keeps the previous solution
+        self._pstar, self._ustar, self._qstarR, self._qstarL = _pstar, _ustar, _qstarR, _qstarL
         return
-- 
2.43.0


From f19c625c8b81cc6183a9df0f261fd3fbcc5149aa Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 06/25] fix: stability operators follow the base state and
 boundary conditions

Operators were kept after set_basestate or set_BC, a failed construction left operators without
boundary conditions for the next call, and Euler1D removed 'type' from the user's dictionaries.
---
 aerokit/stability/Euler.py | 4 ++--
 aerokit/stability/_base.py | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..c1f32bc 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])  # user's dict must not be changed
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..cfe654b 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be computed again
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be computed again
 
     def check_basestate(self):
         return self._basestate is not None
@@ -49,7 +51,11 @@ class LinOperator:
 
     def get_RHS_time_matrices(self):
         if self._B is None:
-            self.compute_operators()
+            try:
+                self.compute_operators()
+            except BaseException:
+                self._B = None  # never keep partially built operators
+                raise
         return self._B, self._At
 
     def solve_eig(self):
-- 
2.43.0


From 0ce74c12a828b41725bd26f31efcfeda24923ce5 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 07/25] fix: select_and_sort does not change the print options
 of numpy any more

---
 aerokit/stability/_base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index cfe654b..59a8bf5 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -69,7 +69,6 @@ class LinOperator:
         condition = (vp.real < realmax) & (vp.real >= realmin) & (vp.imag > imagmin) & (vp.imag < imagmax)
         vals = np.compress(condition, self._vals)
         vects = np.compress(condition, self._vects, axis=1)
-        np.set_printoptions(formatter={"float_kind": "{:.4f}".format})
         print(f"{vals.size}/{vp.size} remaining eigenvalues")
         sortmethod = {
             "real": np.real,
-- 
2.43.0


From acd027b74c7f0ae51fc26fe9a37558a1392e324c Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 08/25] fix: differentiation matrices do not depend on the
 order nor the origin of the requests

The table and its size were published separately, so that two callers could make each other
read beyond the table; and callers shared (and could alter) the table itself.
---
 aerokit/common/numspectral.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aerokit/common/numspectral.py b/aerokit/common/numspectral.py
index e48d09e..bd750bf 100644
--- a/aerokit/common/numspectral.py
+++ b/aerokit/common/numspectral.py
@@ -12,7 +12,7 @@ class ChebCollocation:
 
     def __init__(self, npts: int, xmin=None, xmax=None):
         self._npts = npts
-        self._max_Dorder = 0
+        self._matder = None
         # default is -1 to 1 (reverse original xi distribution)
         self._xmin = -1.0 if xmin is None else xmin
         self._xmax = 1.0 if xmax is None else xmax
@@ -69,9 +69,10 @@ class ChebCollocation:
 
     def matder(self, order: int):
         assert order >= 1
-        if order > self._max_Dorder:
-            self.compute_matder(order)
-        return self._matder[:, :, order - 1]
+        DM = self._matder
+        if DM is None or order > DM.shape[2]:
+            DM = self.compute_matder(order)
+        return DM[:, :, order - 1].copy()
 
     def compute_matder(self, maxorder):
         """
@@ -114,4 +115,4 @@ class ChebCollocation:
             np.fill_diagonal(D, -D.sum(axis=1))
             DM[:, :, ell] = D * (-2.0 / (self._xmax - self._xmin)) ** (ell + 1)
         self._matder = DM
-        self._max_Dorder = maxorder
+        return DM
-- 
2.43.0


From 519510a0059b872628c8e3b7a0b666d61691ef61 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 09/25] fix: setDicoVar keeps the current denominations when it
 fails

---
 aerokit/common/dicovar.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..d68db66 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,16 +103,13 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
-        # Setting database
+        # Setting database (the current one is kept if software is unknown)
         softOK = False
         for soft in _dataBase:
             if software.lower() in soft[0]:
-                self._dv = _copy.deepcopy(soft[1])
-                self._softName = soft[0][0]
+                dv = _copy.deepcopy(soft[1])
+                # Internal variables definitions
+                self._dv, self._softName = dv, soft[0][0]
                 softOK = True
                 print('---- HADES::DicoVar ----')
                 print('--> Using {} variables denomination'.format(self._softName))
-- 
2.43.0


From 7ac9f35b938b5fa34ab6df1e19f79b74ceeca28b Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 10/25] fix: RKF45 reaches xStop even if the last step is first
 rejected

---
 aerokit/common/_ode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..2644bdb 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -83,6 +83,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         else:
             hNext = h
         # Check if next step is the last one; is so, adjust h
+        stopper = 0  # a rejected last step is no more the last one
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
             stopper = 1
-- 
2.43.0


From 731430a59a3a5206fb379b8e054e590e523279ae Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 11/25] fix: RKF45 reduces its step when the function is not
 defined at the trial point

A NaN in a trial step made the step NaN for all remaining iterations and returned silently
a truncated solution.
---
 aerokit/common/_ode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 2644bdb..b8e688d 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -78,7 +78,9 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
             if stopper == 1:
                 break
         # Compute next step size from Eq. (7.24)
-        if e != 0.0:
+        if not np.isfinite(e):
+            hNext = 0.5 * h  # F could not be evaluated so far away
+        elif e != 0.0:
             hNext = 0.9 * h * (tol / e) ** 0.2
         else:
             hNext = h
-- 
2.43.0


From 70db31e99e7a3e85c51e8ed8356133e4a03b2ce0 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 12/25] fix: conical shock integration always ends

Mach numbers and shock angles without conical flow made conical_deflection_Mach_sigma (and the
functions which invert it, even for cones with an attached shock) loop forever. The deflection
is now zero when there is no shock to deflect the flow and NaN if the integration does not converge.
---
 aerokit/aero/ShockWave.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b88e2d8..d79f553 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -365,12 +365,19 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
 
     # initial data for integration from downstream shock to wall
     th = deflection_Mach_sigma(Mach, sigma, gamma)
+    if th <= 0.0:
+        return 0.0  # no shock: angle not greater than Mach angle, or normal shock
     ma = downstream_Mn(Mach * degree.sin(sigma), gamma) / degree.sin(sigma - th)
     phi = sigma
     thma = np.array([th, ma])
     h = -phi / 10.0
     conv = phi
+    itmax = 10000
+    it = 0
     while abs(conv) >= tol:
+        it += 1
+        if it > itmax or not np.all(np.isfinite(thma)) or not np.isfinite(h):
+            return np.nan  # no conical flow for these Mach number and shock angle
         dthma, err = _rkf45(rhs, phi, thma, h)
         # Accept integration step if error e is within tolerance
         if err <= tol:
-- 
2.43.0


From 53281ccd8b4d20aab624f339b1465ce633a108ac Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 13/25] fix: turbofan_adapt forwards xi_nozzle to its core

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From f00df438fb8d2a2c480cc46449d3c6573875590a Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 14/25] fix: copies of 1D states do not share their arrays

---
 aerokit/aero/model1D.py    | 3 ++-
 aerokit/aero/unsteady1D.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 938bf02..88338a8 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -2,6 +2,7 @@
   representation of 1D flows
 """
 
+import copy
 import numpy as np
 from aerokit.common import defaultgas as defg
 from aerokit.aero import Isentropic as Is
@@ -38,7 +39,7 @@ class state:
         return self.rho.size if isinstance(self.rho, np.ndarray) else 1
 
     def copy(self):
-        return state(self.rho, self.u, self.p, self._gamma)
+        return copy.deepcopy(self)
 
     def state_RH(self):
         """return Rankine-Hugoniot jump state"""
diff --git a/aerokit/aero/unsteady1D.py b/aerokit/aero/unsteady1D.py
index 952619e..b43b978 100644
--- a/aerokit/aero/unsteady1D.py
+++ b/aerokit/aero/unsteady1D.py
@@ -36,7 +36,8 @@ class unsteady_state(model1D.state):
         return copy.deepcopy(self)
 
     def copysymmetric(self):
-        return unsteady_state(self.rho, -self.u, self.p, self._gamma)
+        q = self.copy()
+        return unsteady_state(q.rho, -q.u, q.p, q._gamma)
 
     def _rankinehugoniot_from_ushock(self, ushock):
         """
-- 
2.43.0


From 8b0696a6474134115755d3a47cfe3e276ad86a8e Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 15/25] fix: compute_matder does not expose its table to its
 caller

---
 aerokit/common/numspectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/numspectral.py b/aerokit/common/numspectral.py
index bd750bf..8fb2fc2 100644
--- a/aerokit/common/numspectral.py
+++ b/aerokit/common/numspectral.py
@@ -115,4 +115,4 @@ class ChebCollocation:
             np.fill_diagonal(D, -D.sum(axis=1))
             DM[:, :, ell] = D * (-2.0 / (self._xmax - self._xmin)) ** (ell + 1)
         self._matder = DM
-        return DM
+        return DM.copy()  # the table must not be changed through the returned array
-- 
2.43.0


From 8a0ac98fd13ca3b0dddeb4a07c646b3268bbc1b5 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 16/25] fix: RKF45 does not go beyond xStop with its first step

---
 aerokit/common/_ode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index b8e688d..0f1bd09 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,6 +66,9 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
+    if (h > 0.0) == ((x + h) >= xStop):  # the first step must not go beyond xStop
+        h = xStop - x
+        stopper = 1
     for i in range(10000):
         dy, e = _rkf45(F, x, y, h)
         # Accept integration step if error e is within tolerance
-- 
2.43.0


From 13c89cffcd59ac351a6dc2cdfd3c6f5714ea7a4e Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 17/25] fix: backward RKF45 recognises its last step by its own
 direction

---
 aerokit/common/_ode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 0f1bd09..f59b8c9 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,7 +66,8 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
-    if (h > 0.0) == ((x + h) >= xStop):  # the first step must not go beyond xStop
+    sign = 1.0 if h > 0.0 else -1.0
+    if sign * (x + h) >= sign * xStop:  # the first step must not go beyond xStop
         h = xStop - x
         stopper = 1
     for i in range(10000):
@@ -89,7 +90,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
             hNext = h
         # Check if next step is the last one; is so, adjust h
         stopper = 0  # a rejected last step is no more the last one
-        if (h > 0.0) == ((x + hNext) >= xStop):
+        if sign * (x + hNext) >= sign * xStop:
             hNext = xStop - x
             stopper = 1
         h = hNext
-- 
2.43.0


From 3ef45f881665fea6f751456a42d93de2e9485dac Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 18/25] fix: RKF45 recovers its step after a rejection when the
 error estimate vanishes

---
 aerokit/common/_ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index f59b8c9..f14d76f 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -87,7 +87,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         elif e != 0.0:
             hNext = 0.9 * h * (tol / e) ** 0.2
         else:
-            hNext = h
+            hNext = 2.0 * h  # no error at all: a step reduced by a rejection must grow again
         # Check if next step is the last one; is so, adjust h
         stopper = 0  # a rejected last step is no more the last one
         if sign * (x + hNext) >= sign * xStop:
-- 
2.43.0


From dd7c38f50b38a9e6f9b86658a61f27f662ef6ab1 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 19/25] fix: RKF45 says when it stops before xStop

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index f14d76f..94f39d4 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -94,4 +94,6 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
             hNext = xStop - x
             stopper = 1
         h = hNext
+    else:
+        raise RuntimeError("RKF45 did not reach xStop=%s, stopped at x=%s: too many steps" % (xStop, x))
     return np.array(X), np.array(Y)
-- 
2.43.0


From 5df408ced7ffc99875d3a7b4af8e35b05ca137e2 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 20/25] fix: printDatabase prints one database even if it
 changes meanwhile

---
 aerokit/common/dicovar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index d68db66..8544cab 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -166,10 +166,12 @@ class _DicoVar(object):
 
     def printDatabase(self):
         """Print the variables denomination for the selected software"""
+        # the database may change while it is printed
+        dv, softName = dict(self._dv), self._softName
         print('---- HADES::DicoVar ----')
-        print('--> Database dictionnary for {}'.format(self._softName))
-        for elt in self._dv:
-            print('      {} => {}'.format(elt, self._dv[elt]))
+        print('--> Database dictionnary for {}'.format(softName))
+        for elt in dv:
+            print('      {} => {}'.format(elt, dv[elt]))
 
     # Definition of other ways to get a variable
     def __call__(self, var):
-- 
2.43.0


From 9c3c67b924953aaaac994994a812061274d2a0f8 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 21/25] fix: remove_output.py keeps the notebook or its backup
 whole whenever it stops

---
 notebooks/remove_output.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/notebooks/remove_output.py b/notebooks/remove_output.py
index 07de599..b3dde15 100644
--- a/notebooks/remove_output.py
+++ b/notebooks/remove_output.py
@@ -21,11 +21,14 @@ def remove_outputs(nb):
 if __name__ == '__main__':
     for fname in sys.argv[1:]:
         bakname = fname+'.bak'
-        os.rename(fname, bakname)
-        with io.open(bakname, 'r') as f:
+        tmpname = fname+'.tmp'
+        with io.open(fname, 'r', encoding='utf8') as f:
             nb = read(f, 'json')
         remove_outputs(nb)
         #base, ext = os.path.splitext(fname)
-        with io.open(fname, 'w', encoding='utf8') as f:
+        # the cleaned notebook is complete on disk before the original is moved
+        with io.open(tmpname, 'w', encoding='utf8') as f:
             write(nb, f, 'json', version=4)
+        os.replace(fname, bakname)
+        os.replace(tmpname, fname)
         print("wrote cleaned %s and backward copy %s" % (fname, bakname))
\ No newline at end of file
-- 
2.43.0


From 73ae1691c20427afce278a7e86ff9720fe058b6c Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 22/25] fix: default gas of Fanno, Rayleigh, CompressibleFlow,
 WeightMassFlow and nozzle comes from defaultgas

---
 aerokit/aero/CompressibleFlow.py | 25 +++++++++++++------------
 aerokit/aero/Fanno.py            | 15 ++++++++-------
 aerokit/aero/MassFlow.py         |  2 +-
 aerokit/aero/Rayleigh.py         | 21 +++++++++++----------
 aerokit/instance/nozzle.py       |  2 +-
 5 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/aerokit/aero/CompressibleFlow.py b/aerokit/aero/CompressibleFlow.py
index ac1315f..bc70c0d 100644
--- a/aerokit/aero/CompressibleFlow.py
+++ b/aerokit/aero/CompressibleFlow.py
@@ -5,31 +5,32 @@
 from . import Isentropic as ist
 from . import Supersonic as sup
 from . import MassFlow as mfl
+from aerokit.common import defaultgas as defg
 
 # -- isentropic functions --
 
 
-def TtTs_Mach(Mach, gamma=1.4):
+def TtTs_Mach(Mach, gamma=defg._gamma):
     """legacy interface to same function in Isentropic"""
     return ist.TtTs_Mach(Mach, gamma)
 
 
-def PtPs_Mach(Mach, gamma=1.4):
+def PtPs_Mach(Mach, gamma=defg._gamma):
     """legacy interface to same function in Isentropic"""
     return ist.PtPs_Mach(Mach, gamma)
 
 
-def Mach_TtTs(TtTs, gamma=1.4):
+def Mach_TtTs(TtTs, gamma=defg._gamma):
     """legacy interface to same function in Isentropic"""
     return ist.Mach_TtTs(TtTs, gamma)
 
 
-def Mach_PtPs(PtPs, gamma=1.4):
+def Mach_PtPs(PtPs, gamma=defg._gamma):
     """legacy interface to same function in Isentropic"""
     return ist.Mach_PtPs(PtPs, gamma)
 
 
-def Velocity_MachTi(Mach, Ti, r=287.1, gamma=1.4):
+def Velocity_MachTi(Mach, Ti, r=defg._r, gamma=defg._gamma):
     """legacy interface to same function in Isentropic"""
     return ist.Velocity_MachTi(Mach, Ti, r, gamma)
 
@@ -37,22 +38,22 @@ def Velocity_MachTi(Mach, Ti, r=287.1, gamma=1.4):
 # -- 2D supersonic invariants --
 
 
-def PrandtlMeyer_Mach(Mach, gamma=1.4):
+def PrandtlMeyer_Mach(Mach, gamma=defg._gamma):
     """legacy interface to same function in Supersonic"""
     return sup.PrandtlMeyer_Mach(Mach, gamma)
 
 
-def Mach_PrandtlMeyer(omega, gamma=1.4):
+def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
     """legacy interface to same function in Supersonic"""
     return sup.Mach_PrandtlMeyer(omega, gamma)
 
 
-def deflection_Mach_IsentropicPsratio(Mach, Pratio, gamma=1.4):
+def deflection_Mach_IsentropicPsratio(Mach, Pratio, gamma=defg._gamma):
     """legacy interface to same function in Supersonic"""
     return sup.deflection_Mach_IsentropicPsratio(Mach, Pratio, gamma)
 
 
-def IsentropicPsratio_Mach_deflection(Mach, dev, gamma=1.4):
+def IsentropicPsratio_Mach_deflection(Mach, dev, gamma=defg._gamma):
     """legacy interface to same function in Supersonic"""
     return sup.IsentropicPsratio_Mach_deflection(Mach, dev, gamma)
 
@@ -60,16 +61,16 @@ def IsentropicPsratio_Mach_deflection(Mach, dev, gamma=1.4):
 # -- Compressible flow functions  --
 
 
-def WeightMassFlow(Mach, r=287.1, gamma=1.4):
+def WeightMassFlow(Mach, r=defg._r, gamma=defg._gamma):
     """legacy interface to same function in MassFlow"""
     return mfl.WeightMassFlow(Mach, r, gamma)
 
 
-def Sigma_Mach(Mach, gamma=1.4):
+def Sigma_Mach(Mach, gamma=defg._gamma):
     """legacy interface to same function in MassFlow"""
     return mfl.Sigma_Mach(Mach, gamma)
 
 
-def Mach_Sigma(sigma, Mach=2.0, gamma=1.4):
+def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
     """legacy interface to same function in MassFlow"""
     return mfl.Mach_Sigma(sigma, Mach, gamma)
diff --git a/aerokit/aero/Fanno.py b/aerokit/aero/Fanno.py
index 8eed54f..f549adb 100644
--- a/aerokit/aero/Fanno.py
+++ b/aerokit/aero/Fanno.py
@@ -3,9 +3,10 @@
 """
 
 import numpy as np
+from aerokit.common import defaultgas as defg
 
 
-def maxFparam_Mach(Mach, gamma=1.4):
+def maxFparam_Mach(Mach, gamma=defg._gamma):
     """computes maximum Fanno parameter for a given Mach number state
     This maximum value makes the flow reach a sonic state
     \f$
@@ -21,22 +22,22 @@ def maxFparam_Mach(Mach, gamma=1.4):
 # --- ratio to critical/choking state ---
 
 
-def Ps_Pscri(Mach, gamma=1.4):
+def Ps_Pscri(Mach, gamma=defg._gamma):
     """computes Ps/Ps_cri ratio from Mach number"""
     return 1.0 / (Mach * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach))))
 
 
-def Ts_Tscri(Mach, gamma=1.4):
+def Ts_Tscri(Mach, gamma=defg._gamma):
     """computes Ts/Ts_cri ratio from Mach number"""
     return (gamma + 1) / 2 / (1 + (gamma - 1) / 2 * np.square(Mach))
 
 
-def Rho_Rhocri(Mach, gamma=1.4):
+def Rho_Rhocri(Mach, gamma=defg._gamma):
     """computes rho/rho_cri ratio from Mach number"""
     return 1.0 / Mach * np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach)))
 
 
-def Pi_Picri(Mach, gamma=1.4):
+def Pi_Picri(Mach, gamma=defg._gamma):
     """computes Pi/Pi_cri ratio from Mach number"""
     return (
         1.0
@@ -45,12 +46,12 @@ def Pi_Picri(Mach, gamma=1.4):
     )
 
 
-def V_Vcri(Mach, gamma=1.4):
+def V_Vcri(Mach, gamma=defg._gamma):
     """computes V/a_cri ratio from Mach number"""
     return Mach / np.sqrt(2 / (gamma + 1) * (1 + (gamma - 1) / 2 * np.square(Mach)))
 
 
-def NormdS(Mach, gamma=1.4):
+def NormdS(Mach, gamma=defg._gamma):
     """computes delta S / Cp up to critical point"""
     return np.log(
         Mach ** ((gamma - 1) / gamma)
diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..fbb112a 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -22,7 +22,7 @@ def __MachSup_sigma(sigma, gamma):
 # -- Compressible flow functions  --
 
 
-def WeightMassFlow(Mach, r=287.1, gamma=defg._gamma):
+def WeightMassFlow(Mach, r=defg._r, gamma=defg._gamma):
     return (
         np.sqrt(gamma)
         * Mach
diff --git a/aerokit/aero/Rayleigh.py b/aerokit/aero/Rayleigh.py
index 114e599..a887866 100644
--- a/aerokit/aero/Rayleigh.py
+++ b/aerokit/aero/Rayleigh.py
@@ -3,9 +3,10 @@
 """
 
 import numpy as np
+from aerokit.common import defaultgas as defg
 
 
-def maxTiratio_Mach(Mach, gamma=1.4):
+def maxTiratio_Mach(Mach, gamma=defg._gamma):
     """computes maximum heating ratio parameter for a given Mach number state
     This maximum value makes the flow reach a sonic state
     """
@@ -15,30 +16,30 @@ def maxTiratio_Mach(Mach, gamma=1.4):
 # --- ratio to critical/choking state ---
 
 
-def Ps_Pscri(Mach, gamma=1.4):
+def Ps_Pscri(Mach, gamma=defg._gamma):
     """computes Ps/Ps_cri ratio from Mach number"""
     return (gamma + 1) / (1 + gamma * np.square(Mach))
 
 
-def Ts_Tscri(Mach, gamma=1.4):
+def Ts_Tscri(Mach, gamma=defg._gamma):
     """computes Ts/Ts_cri ratio from Mach number"""
     m2 = np.square(Mach)
     return m2 * np.square(((gamma + 1) / (1 + gamma * m2)))
 
 
-def Ti_Ticri(Mach, gamma=1.4):
+def Ti_Ticri(Mach, gamma=defg._gamma):
     """computes Ti/Ti_cri ratio from Mach number"""
     m2 = np.square(Mach)
     return 2 * (gamma + 1) * m2 / np.square(1 + gamma * m2) * (1 + (gamma - 1) / 2 * m2)
 
 
-def Rho_Rhocri(Mach, gamma=1.4):
+def Rho_Rhocri(Mach, gamma=defg._gamma):
     """computes rho/rho_cri ratio from Mach number"""
     m2 = np.square(Mach)
     return (1 + gamma * m2) / ((gamma + 1) * m2)
 
 
-def Pi_Picri(Mach, gamma=1.4):
+def Pi_Picri(Mach, gamma=defg._gamma):
     """computes Pi/Pi_cri ratio from Mach number"""
     m2 = np.square(Mach)
     return (
@@ -48,25 +49,25 @@ def Pi_Picri(Mach, gamma=1.4):
     )
 
 
-def V_Vcri(Mach, gamma=1.4):
+def V_Vcri(Mach, gamma=defg._gamma):
     """computes V/a_cri ratio from Mach number"""
     m2 = np.square(Mach)
     return m2 * (gamma + 1) / (1 + gamma * m2)
 
 
-def NormdS(Mach, gamma=1.4):
+def NormdS(Mach, gamma=defg._gamma):
     """computes delta S / Cp up to critical point"""
     m2 = np.square(Mach)
     return np.log(m2 * ((gamma + 1) / (1 + gamma * m2)) ** ((gamma + 1) / gamma))
 
 
-def SubMach_TiTicri(Tiratio, gamma=1.4):
+def SubMach_TiTicri(Tiratio, gamma=defg._gamma):
     """computes Mach number from Ti/Ti_cri ratio (<1)"""
     alpha = np.sqrt(1.0 - Tiratio)
     return np.sqrt((1.0 - alpha) / (alpha * gamma + 1))
 
 
-def SupMach_TiTicri(Tiratio, gamma=1.4):
+def SupMach_TiTicri(Tiratio, gamma=defg._gamma):
     """computes Mach number from Ti/Ti_cri ratio (<1)"""
     alpha = np.sqrt(1.0 - Tiratio)
     return np.sqrt((1.0 + alpha) / (1.0 - alpha * gamma))
diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 3b64598..cacb4ce 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -166,7 +166,7 @@ class nozzle:
     :param scale_ps: arbitrary scaling of static (and associated total) pressure (default 1. at the outlet)
     """
 
-    def __init__(self, x, section, AsoAc=None, gamma=1.4, NPR=None, ref_rttot=1.0, scale_ps=1.0):
+    def __init__(self, x, section, AsoAc=None, gamma=defg._gamma, NPR=None, ref_rttot=1.0, scale_ps=1.0):
 
         self.gamma = gamma
         self.x = x
-- 
2.43.0


From 3af5903f0f74842a78529a43a31509ee744d376a Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 23/25] fix: Propulsion and extendvar can be imported

---
 aerokit/aero/Propulsion.py  | 2 +-
 aerokit/common/extendvar.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From d6a8e3c0ce81aab7454fcb45cffc3a13629d0b07 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 24/25] fix: default gas of Propulsion comes from defaultgas

---
 aerokit/aero/Propulsion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index ec807e0..4fd92c3 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -4,13 +4,14 @@
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
 import aerokit.aero.IterativeSolve as ITS
+from aerokit.common import defaultgas as defg
 
 
-def ThrustFunction(Mach, gamma=1.4):
+def ThrustFunction(Mach, gamma=defg._gamma):
     return mf.Sigma_Mach(Mach, gamma) / Is.PtPs_Mach(Mach, gamma) * (1.0 + gamma * Mach ** 2)
 
 
-def Mach_ThrustFunction(thrust, Mach=2.0, gamma=1.4):
+def Mach_ThrustFunction(thrust, Mach=2.0, gamma=defg._gamma):
     def thrust_of_mach(m):
         return ThrustFunction(m, gamma)
 
-- 
2.43.0


From 72c56594dbb529d826743c2066bd51bd98fc1407 Mon Sep 17 00:00:00 2001
From: dst <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:09 +0000
Subject: [PATCH 25/25] fix: extended variables come from one database even if
 it changes meanwhile

---
 aerokit/common/dicovar.py   |  8 ++++++++
 aerokit/common/extendvar.py | 22 ++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 8544cab..30842f5 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -124,6 +124,14 @@ class _DicoVar(object):
         """
         return self._dv.keys()            
 
+    def copy(self):
+        """
+        return an independent copy of the selected database
+        """
+        db = _copy.copy(self)
+        db._dv = dict(db._dv)
+        return db
+
     def get(self, var):
         """
         Get the variable name with its denomination in the selected software database
diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..a3d2896 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -19,21 +19,23 @@ from aerokit.common.dicovar import dicoVar as dico
 
 def expressions_from_rhopv():
     extdico = {}
+    # the database may change meanwhile
+    db = dico.copy()
     # copy dicovar (same as deepcopy)
-    for var in dico.keys():
-        #print 'copy ',var, dico[var]
-        extdico[var] = dico[var]
+    for var in db.keys():
+        #print 'copy ',var, db[var]
+        extdico[var] = db[var]
     # additional variables
     _g     = '1.4'
     _gsgmu = '3.5'
     _gmusd = '0.2'
-    _a     = 'sqrt('+_g+'*'+dico['P']+'/'+dico['rho']+')'
-    extdico['Pt']   = dico['P']+'*(1+'+_gmusd+'*(mag('+dico['V']+'))^2/('+_g+'*'+dico['P']+'/'+dico['rho']+'))^'+_gsgmu
-    extdico['T']    = dico['P']+'/'+dico['rho']+'/287.1'
-    extdico['S']    = 'ln('+dico['P']+'/'+dico['rho']+'^'+_g+')'
-    extdico['V']    = 'mag('+dico['V']+')'
+    _a     = 'sqrt('+_g+'*'+db['P']+'/'+db['rho']+')'
+    extdico['Pt']   = db['P']+'*(1+'+_gmusd+'*(mag('+db['V']+'))^2/('+_g+'*'+db['P']+'/'+db['rho']+'))^'+_gsgmu
+    extdico['T']    = db['P']+'/'+db['rho']+'/287.1'
+    extdico['S']    = 'ln('+db['P']+'/'+db['rho']+'^'+_g+')'
+    extdico['V']    = 'mag('+db['V']+')'
     extdico['a' ]   = _a
-    extdico['Mach'] = 'mag('+dico['V']+')/'+_a
+    extdico['Mach'] = 'mag('+db['V']+')/'+_a
     extdico['Mx']   = 'U_X/'+_a
-    extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
+    extdico['alpha'] = 'atan('+db['Vy']+'/'+db['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0

