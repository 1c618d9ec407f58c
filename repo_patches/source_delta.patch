From a5f2c665890438ed8b4779ad3dfda508404d31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:58 +0000
Subject: [PATCH 01/63] fix: default stepping range uses the parameter's own
 range

linstep() and logstep() document lo/hi as optional, falling back on the
parameter's range, but computed the step from the (None) arguments.
---
 package/inference/pie/realparam.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..4ebbebf 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -135,9 +135,9 @@ class RealParamHandler(ScalarParamHandler):
         else:
             self.shi = hi
         self.steps = n
-        self.delta = (hi-lo)/(n-1.)
+        self.delta = (self.shi-self.slo)/(n-1.)
         self.step_num = 0
-        self._set_value(lo)
+        self._set_value(self.slo)
         self._set_status(stepping)
 
     def step(self, lo=None, hi=None, n=10):
@@ -152,17 +152,15 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo = lo
+        self.shi = hi
         self.steps = n
         self.fac = exp(log(hi/lo)/(n-1.))
         self.step_num = 0
-- 
2.43.0


From 136766735ca46361b68eaea318580fa5887bd195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 02/63] fix: del_listener removes from the listeners list

It referred to a nonexistent attribute, so listeners could never be removed.
---
 package/inference/pie/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..a427767 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -164,7 +164,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
-- 
2.43.0


From fc7a5e95014b556be128ccfb661aed99ea3a9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 03/63] fix: a derived class no longer adds its names to its
 base class

param_names and predictor_names were extended in place in the inherited list, so
declaring a parameter or predictor in a derived class changed the base class.
---
 package/inference/pie/param.py     | 9 +++++----
 package/inference/pie/predictor.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index a427767..e2af4ca 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -85,10 +85,11 @@ class Param(AutoNamed):
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of param names in the class dict.
-        try:
-            cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
+        # Start from a copy of any inherited list, so that the class it was
+        # inherited from is not altered.
+        if 'param_names' not in cls.__dict__:
+            cls.param_names = list(getattr(cls, 'param_names', []))
+        cls.param_names.append(name)
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..cfd37d9 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -59,10 +59,11 @@ class Predictor(AutoNamed):
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
         # Keep a list of predictor names in the class dict.
-        try:
-            cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
+        # Start from a copy of any inherited list, so that the class it was
+        # inherited from is not altered.
+        if 'predictor_names' not in cls.__dict__:
+            cls.predictor_names = list(getattr(cls, 'predictor_names', []))
+        cls.predictor_names.append(name)
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From 13c5874e00f9ffae9e2f9bd815b3855c1a1693bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 04/63] fix: grid fits cover the whole grid

A grid fit started wherever the stepping parameters were, so after a manual
next_step() part of the grid was never evaluated (and stayed NaN).
---
 package/inference/pie/inference_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..966d617 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -421,6 +421,8 @@ class Inference(HasAutoNamed):
             vresults = VectorGrid(self.stepping_params, self.varying_params)
         opt_val = None
         nstep = 0
+        # The params may have been stepped by hand; start from the first point.
+        self.reset_steps()
         # *** Put try/except around score/optimize so we can return a partial
         # grid if there is a failure after successful calculations.
         while True:
-- 
2.43.0


From 78ea84b6b8091a7dccc02415a7494fc5b24dcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 05/63] fix: optimize() leaves the parameters at the optimum it
 returns

The parameters kept the values of the minimizer's last trial point; with mapped
bounds that trial point was also what was returned as the best fit.
---
 package/inference/pie/inference_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 966d617..89a4dab 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -530,6 +530,9 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The minimizer's last trial point is usually not the optimum; leave
+        # the params at the optimum.
+        extremum = self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
-- 
2.43.0


From 92eec5b54004c815f08dd5cf888a8d055847710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 06/63] fix: obs_info() restores the parameters

It left the varying parameters at the last displaced point.
---
 package/inference/pie/bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..41df810 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -85,6 +85,8 @@ class BayesianInference(Inference):
         deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
         # Use those step sizes for estimating the observed info matrix.
         info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        # The calculation displaces the params; put them back at the mode.
+        self._logp_func(mode)
         if err:
             return info, ierr
         else:
-- 
2.43.0


From 8929b5f54a589768ce691043a0e39a2c0d74c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 07/63] fix: accept data as one array of triples, and 2-d
 locations

set_data() stored the single-array form in attributes nothing reads (or read ones
never set), so every form but three 1-d arrays failed.
---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..482865b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From e5fdc1589dd58465dd41093688988e5ab5fce487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 08/63] fix: sim() and sim1() honour the locations and sigmas
 they are given

Array arguments raised (truth value of an array), a zero location was ignored,
a changed number of data was not recorded, and the caller's arrays were kept.
---
 package/inference/pie/gaussian.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 482865b..c016383 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -110,19 +110,20 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns = array(locns)
+            self.sigmas = array(sigmas)
+            self.ndata = len(self.locns)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
+            self.sigmas = array(sigmas)
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
@@ -138,10 +139,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From d468284c6d3738b6ff360201d26c2c1a5bcdcd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:49 +0000
Subject: [PATCH 09/63] fix: add_sim() adds simulated data

It counted all of the data twice and never simulated values, leaving the
locations and sigmas longer than the values.
---
 package/inference/pie/gaussian.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index c016383..f5c768d 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -160,25 +160,30 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
+        if locn is not None and sigma is not None:
+            nadd = 1
             self.locns = concatenate( (self.locns, (locn,)) )
             self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
+        elif locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
+            nadd = len(locns)
             self.locns = concatenate( (self.locns, locns) )
             self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
+        else:
+            raise ValueError('Need locations and sigmas for the new data!')
+        self.ndata += nadd
         if len(self.locns.shape) == 1:
             self.dimen = 1
-        elif len(self._locns.shape) == 2:
+        elif len(self.locns.shape) == 2:
             self.dimen = self.locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
         # Update predictions.
         self.get_prdxns()
+        # Sample the new data via Gaussians.
+        new = self.prdxns[-nadd:] + self.sigmas[-nadd:]*stdnorm.rvs(nadd)
+        self.vals = concatenate( (self.vals, new) )
         
 
 # *** Add method to restore to original (not simulated) data?
-- 
2.43.0


From 96d90a131de1fd4575c0554fe21e72a1ffe98c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 10/63] fix: a simulated datum is not truncated when the data
 were integers

---
 package/inference/pie/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index f5c768d..963b20c 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -43,7 +43,7 @@ class SampledGaussianHandler(PredictorHandler):
         # or deepcopy modules.
         if self._using_globals:
             self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
+            self.vals = array(self.vals, float)  # simulated values are real
             self.sigmas = self.sigmas.copy()
             self._using_globals = False
         
-- 
2.43.0


From 6b92372ffd63004ed669050b4679404682025064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 11/63] fix: critlevel() records nothing when it fails

---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..881d472 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -173,14 +173,14 @@ class HPD1D(object):
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-        self.probs.append(p)
-        self.deltas.append(logratio)
-        self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
         bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
+        self.probs.append(p)
+        self.deltas.append(logratio)
+        self.levels.append(self.max+logratio)
         self.bounds.append(bounds)
         return logratio, bounds
 
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..6aec084 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -183,14 +183,14 @@ class HPDGrid1D(object):
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-        self.probs.append(p)
-        self.deltas.append(logratio)
-        self.levels.append(self.max+logratio)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
         bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
+        self.probs.append(p)
+        self.deltas.append(logratio)
+        self.levels.append(self.max+logratio)
         self.bounds.append(bounds)
         return logratio, bounds
 
-- 
2.43.0


From f998e19f5502c785b9d3b6b9339d479af28d5ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 12/63] fix: xvalues checks for room at upward crossings too

---
 package/inference/grid/_gridquad.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..349021d 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -102,6 +102,10 @@ cf2py intent(out) xvals, nx, ok
 	do 20 i=1, n-1
 	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
 	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
-- 
2.43.0


From 58b1fe75bf5dd7bfdf1ea573ee7d7df71067ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 13/63] fix: the HPD normalization includes flat parts at the
 lowest density

---
 package/inference/grid/hpd.py     | 8 ++++++--
 package/inference/grid/hpdgrid.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 881d472..62a4097 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -128,7 +128,9 @@ class HPD1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        # (All of the scaled PDF is > -1; with the minimum as the level, cells
+        # on a plateau at the minimum would be missed.)
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -243,7 +245,9 @@ class HPD2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        # (All of the scaled PDF is > -1; with the minimum as the level, cells
+        # on a plateau at the minimum would be missed.)
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 6aec084..77da56e 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -137,7 +137,9 @@ class HPDGrid1D(object):
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
         # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        # (All of the scaled PDF is > -1; with the minimum as the level, cells
+        # on a plateau at the minimum would be missed.)
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -261,7 +263,9 @@ class HPDGrid2D(object):
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
         # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        # (All of the scaled PDF is > -1; with the minimum as the level, cells
+        # on a plateau at the minimum would be missed.)
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From ae707d0a62582393447917e84cf51945f6a14bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:43 +0000
Subject: [PATCH 14/63] fix: HPD2D keeps the upper y limit

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 62a4097..490e2c6 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -223,7 +223,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From 78881348ee1a2d8909c2eae4e6496e1a7f24aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 15/63] fix: HPD levels and boundaries on log-step grids use
 the density in log(x)

---
 package/inference/grid/hpd.py     | 17 +++++++----------
 package/inference/grid/hpdgrid.py | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 490e2c6..a5d0fdf 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -121,12 +121,11 @@ class HPD1D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid step type!')
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
         if not self.linstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i] = self.spdf[i]*x
+            self.logpdf = logpdf = logpdf + log(self.xvals)
+        self.max = logpdf.max()
+        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # Find the overall normalization for spdf.
         # (All of the scaled PDF is > -1; with the minimum as the level, cells
         # on a plateau at the minimum would be missed.)
@@ -235,15 +234,13 @@ class HPD2D(object):
             self.dy = log(yhi/ylo)/(self.ny-1)
         else:
             raise ValueError('Invalid ystep type!')
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # For log steps, change variables to log(x or y).
         if not self.xlinstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i,:] = self.spdf[i,:]*x
+            self.logpdf = logpdf = logpdf + log(self.xvals)[:,None]
         if not self.ylinstep:
-            for j, y in enumerate(self.yvals):
-                self.spdf[:,j] = self.spdf[:,j]*y
+            self.logpdf = logpdf = logpdf + log(self.yvals)
+        self.max = logpdf.max()
+        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # Find the overall normalization for spdf.
         # (All of the scaled PDF is > -1; with the minimum as the level, cells
         # on a plateau at the minimum would be missed.)
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 77da56e..2051daa 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -130,12 +130,11 @@ class HPDGrid1D(object):
         for i, x in enumerate(self.xvals):
             logpdf[i] = log_pdf(x)
         self.logpdf = logpdf
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # For log steps, change variables to log(x).
         if not self.linstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i] = self.spdf[i]*x
+            self.logpdf = logpdf = logpdf + log(self.xvals)
+        self.max = logpdf.max()
+        self.spdf = exp(logpdf-self.max)  # scaled PDF
         # Find the overall normalization for spdf.
         # (All of the scaled PDF is > -1; with the minimum as the level, cells
         # on a plateau at the minimum would be missed.)
@@ -253,15 +252,13 @@ class HPDGrid2D(object):
             for j,y in enumerate(self.yvals):
                 logpdf[i,j] = log_pdf(x,y)
         self.logpdf = logpdf
-        self.max = logpdf.max()
-        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # For log steps, change variables to log(x or y).
         if not self.xlinstep:
-            for i, x in enumerate(self.xvals):
-                self.spdf[i,:] = self.spdf[i,:]*x
+            self.logpdf = logpdf = logpdf + log(self.xvals)[:,None]
         if not self.ylinstep:
-            for j, y in enumerate(self.yvals):
-                self.spdf[:,j] = self.spdf[:,j]*y
+            self.logpdf = logpdf = logpdf + log(self.yvals)
+        self.max = logpdf.max()
+        self.spdf = exp(logpdf-self.max)  # Scaled PDF
         # Find the overall normalization for spdf.
         # (All of the scaled PDF is > -1; with the minimum as the level, cells
         # on a plateau at the minimum would be missed.)
-- 
2.43.0


From 6b9bde224beb3353f7775cdb151b0e3b081f001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 16/63] fix: Grid1D can be iterated

---
 package/inference/grid/grid1d.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..7720a13 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -870,13 +870,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(len(self)):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
-- 
2.43.0


From c2612206ab5b6084bbb70e5607372502ce5a52a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 17/63] fix: Grid1D.logtrapzd_mom() without moments returns the
 log quadrature

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 7720a13..fff4caa 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -963,7 +963,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From d5fef4be045b880e5b90ac74df51df1a55298dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 18/63] fix: entries of a LabeledMaxList can be deleted

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index fff4caa..545b5a6 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -67,7 +67,7 @@ class LabeledMaxList:
     def __setitem__(self, n, val):
         self.list[n] = val
 
-    def __delitem__(self, n, val):
+    def __delitem__(self, n):
         del self.list[n]
 
     def __repr__(self):
-- 
2.43.0


From 2b9e2264f4e42730d34444b31be76fe7126569aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 19/63] fix: limitRange() accepts an empty list of maxima

---
 package/inference/grid/grid1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 545b5a6..0593fb4 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -113,6 +113,8 @@ class LabeledMaxList:
         range.  This presumes the elements are the *logarithms* of the
         quantity of interest."""
 
+        if not self.list:
+            return
         logrange = log(dynrange)
         top = self.list[0][0]
         i = 1
-- 
2.43.0


From b723725b58e3f1b18e8908ca7d8fcb37817e795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 20/63] fix: vecfunc() records maxima in an empty list too

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 0593fb4..df4feb9 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -597,7 +597,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
-- 
2.43.0


From fa33757a79bdfb424c5c95fa03835dab611361b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 21/63] fix: stepfunc() ends exactly at the upper limit

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index df4feb9..3401945 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -516,7 +516,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From 3a61c06f3691e80ebf311a3ef8fa6798fad39405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 22/63] fix: the intervals of a refined log list have log steps

---
 package/inference/grid/grid1d.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 3401945..a45b2b6 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -183,6 +183,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
@@ -218,6 +219,7 @@ class RefinedIntervalList1D:
                 raise ValueError("Zero boundary for log interval!")
         else:
             raise ValueError("Interval stype must be Lin or Log!")
+        self.stype = stype
         self.base = BasicInterval(self.lo, self.hi, n, stype=stype)
 
         # Initialize the list with the base interval.
@@ -325,12 +327,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, BasicInterval(lo, hi, n, self.stype))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m, self.stype))
             self.merge()
             return
 
@@ -340,19 +342,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, BasicInterval(int_lo.lo, lo, m, self.stype))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, BasicInterval(lo, int_lo.hi, m, self.stype))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, BasicInterval(int_hi.lo, hi, m, self.stype))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m, self.stype))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -383,7 +385,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, BasicInterval(lo, hi, n, self.stype))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From d5c7fbf6219ad8092159c548707408e5de4ef373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 23/63] fix: a reversed interval list can be refined

---
 package/inference/grid/grid1d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index a45b2b6..6b31ccd 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -285,8 +285,7 @@ class RefinedIntervalList1D:
             lo = max(lo, self.lo)
             hi = min(hi, self.hi)
         else:
-            lo = max(hi, self.lo)
-            hi = min(lo, self.hi)
+            lo, hi = max(hi, self.lo), min(lo, self.hi)
         if hi <= lo:
             raise ValueError("Interval does not overlap base interval!")
 
-- 
2.43.0


From b5db6ed8d6d5329fea55b2203e58ffeb554bcb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:37 +0000
Subject: [PATCH 24/63] fix: the resolution test of a refined log list compares
 log steps

---
 package/inference/grid/grid1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 6b31ccd..44326fe 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -313,7 +313,7 @@ class RefinedIntervalList1D:
             hi = hi_int[2]
         # Test if resolved.  Use lo_int rather than hi_int, because if
         # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        if 5*step > self._stepSize(lo_int[1], lo_int[2], 2):  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
-- 
2.43.0


From 4dce42307e15a5eb3b34f36bcfb6cf94f2bfd111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 25/63] fix: pnsig(0) returns the probability of zero signal
 counts

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..ab9086d 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,7 +202,7 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
-- 
2.43.0


From cbe94dc8ff4963035a70bc4456ec56050b39cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 26/63] fix: pnsig() returns a copy of the cached probabilities

---
 package/inference/count/onoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index ab9086d..cb09826 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -207,7 +207,7 @@ class OnOff(object):
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From 8447b97356d6c0d4894dd92b272c522e125fdfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:48 +0000
Subject: [PATCH 27/63] fix: OnOff results for integer signal arrays are not
 truncated

---
 package/inference/count/onoff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index cb09826..c573b51 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -106,7 +106,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros_like(s, dtype=float)
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -164,7 +164,7 @@ class OnOff(object):
         except TypeError:
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros_like(s, dtype=float)
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From 63544cca59a016b69df2ec88eccea5c0edf4c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:35 +0000
Subject: [PATCH 28/63] fix: stores can be opened by their full file name

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From 983b46a935ea3cb10bbf7cd3455bdff9541824a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:35 +0000
Subject: [PATCH 29/63] fix: contents() of a store lists names, each once

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From 75ceb98ba65fa99edb4e0061e24d523556dfab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:35 +0000
Subject: [PATCH 30/63] fix: read_column_vectors() can return arrays

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..a7a3e73 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,7 +1,7 @@
 import os
 import os.path as path
 import pickle as pkl
-from numpy import ndarray, savez, load
+from numpy import array, ndarray, savez, load
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
-- 
2.43.0


From 65b24aa51949c5bc5ab353e614facadb83ce3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:35 +0000
Subject: [PATCH 31/63] fix: safe_open() passes keyword arguments to the opener

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index a7a3e73..46b6502 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -33,10 +33,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From 0cc9f638e0154a4066f9c245c7a2384de7499641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:18 +0000
Subject: [PATCH 32/63] fix: RNG states are pickled to and from binary files

---
 package/inference/utils/rng.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..e02dd28 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -24,7 +24,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +35,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
-- 
2.43.0


From d8ffc315793ec5418e21b2c600cffc6b44fae80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:18 +0000
Subject: [PATCH 33/63] fix: a saved RNG state includes the pending Gaussian

---
 package/inference/utils/rng.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index e02dd28..32ebe0b 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,8 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        # (ID, (key, pos, has_gauss, cached_gaussian)) for MT
+        id, state = state[0], tuple(state[1:])
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -43,7 +44,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From 3a399a6c9f20674a1aa5968c8233b1790b2d14e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:56 +0000
Subject: [PATCH 34/63] fix: dllsteps() and obsinfo() do not modify the arrays
 they are given

---
 package/inference/deriv/obsinfo.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..ce9fb0c 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,7 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -25,7 +26,10 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     """
     if maxll is None:
         maxll = loglike(mle)
-    deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
+    # Pass copies; pk_scales works in place, and does not restore its arguments
+    # if it fails.
+    deltas, status = pk_scales(loglike, array(mle, float), maxll, dll,
+                               array(guess, float), maxiter, tol)
     if status == 3:
         raise RuntimeError('Failed to converge in solving for dll scale!')
     elif status == 2:
@@ -66,4 +70,6 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # to plain 2nd differences, with no extrapolation).
     if maxll is None:
         maxll = loglike(mle)
-    return ninfol(loglike, mle, maxll, deltas, niter+1)
+    # Pass a copy of mle; ninfol works in place, and cannot restore it if loglike
+    # raises an exception.
+    return ninfol(loglike, array(mle, float), maxll, deltas, niter+1)
-- 
2.43.0


From 4ba808a1b07df8e1984d4ee5258d7a364505109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:58 +0000
Subject: [PATCH 35/63] fix: circularly symmetric rules have their rings
 rotated, so that they have the stated degree

---
 package/inference/integrate/_cub2d_auto.py | 64 +++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..1ab94f5 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -292,16 +292,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587098e+00],
+     [   1.4998798865218462e-16,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587098e+00],
+     [  -2.3296031814720810e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720815e+00,   -7.5693395806711938e-01],
+     [  -1.4397739464496355e+00,   -1.9816788294587093e+00],
+     [  -4.4996396595655380e-16,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587100e+00],
+     [   2.3296031814720810e+00,   -7.5693395806712116e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +365,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   1.2246467991473532e-16,    2.0000000000000000e+00],
+     [  -1.7320508075688774e+00,    9.9999999999999989e-01],
+     [  -1.7320508075688776e+00,   -9.9999999999999944e-01],
+     [  -3.6739403974420594e-16,   -2.0000000000000000e+00],
+     [   1.7320508075688767e+00,   -1.0000000000000009e+00],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +405,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128401e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128413e-01],
+     [  -2.0658574377159646e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128512e-01,   -2.0658574377159638e+00],
+     [   8.5570616863128446e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159638e+00,   -8.5570616863128524e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997864e-01,    9.7340173257997875e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997864e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997886e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953186e+00,    1.8968246129953188e+00],
+     [  -1.8968246129953192e+00,   -1.8968246129953186e+00],
+     [   1.8968246129953183e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From c14b331d24ad606e2a45acc1657e4f6d02fadb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:24 +0000
Subject: [PATCH 36/63] fix: adapt() honours maxfac and wrkfac

---
 package/inference/integrate/adapt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..d4e240e 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -82,7 +82,8 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  minpts, maxpts, lenwrk = adapt_sizes(len(lower), maxfac)
+  lenwrk = int(wrkfac*lenwrk)
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
-- 
2.43.0


From e461ed4c337095c014c55de6b952462cdf8e0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:24 +0000
Subject: [PATCH 37/63] fix: adapt() reports invalid arguments

---
 package/inference/integrate/adapt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index d4e240e..02c9e82 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -92,3 +92,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('Dimension must be in [2,20], and maxfac at least 1!')
-- 
2.43.0


From 93fb5817dd3b7353a0b63e15b6c633af83ee2376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:24 +0000
Subject: [PATCH 38/63] fix: adapt_vec() computes integer sizes

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From 191509f7b6e85ca1fb6990aab01006269bcb5c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 39/63] fix: plot_bivar() passes its contour levels in
 increasing order, as Matplotlib requires

---
 package/inference/utils/plot_bivar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 9e67c73..7adb3b4 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -90,6 +90,11 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
     else:
         # Treat levels as *absolute* levels (not relative to max).
         levels = array(levels) - logmax
+    # Matplotlib requires increasing levels; keep the colors in step with them.
+    order = argsort(levels)
+    levels = levels[order]
+    if not isinstance(colors, str):
+        colors = [colors[i % len(colors)] for i in order]
 
     # Plot a grayscale image displaying tails beyond the lowest level.
     if gscale:
-- 
2.43.0


From a0d878d9a9899e8b70d4f90f9a30398065ce01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 40/63] fix: plot_bivar() can draw its cross hairs

---
 package/inference/utils/plot_bivar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 7adb3b4..7d6a92a 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -126,10 +126,10 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
 
     if cross:
         xc, yc = cross
-        xlo, xhi = xlim()
-        ylo, yhi = ylim()
-        pl.hlines(yc, xlo, xhi, 'teal')
-        pl.vlines(xc, ylo, yhi, 'teal')
+        xmin, xmax = pl.xlim()
+        ymin, ymax = pl.ylim()
+        pl.hlines(yc, xmin, xmax, 'teal')
+        pl.vlines(xc, ymin, ymax, 'teal')
     # This makes the original colorbar look a bit out of place,
     # so let's improve its position.
     #l,b,w,h = gca().get_position().bounds
-- 
2.43.0


From 656652aecfab29bafb9fe34a256b62053082a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 41/63] fix: plot_bivar() shows no function value for points
 outside the grid

---
 package/inference/utils/plot_bivar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 7d6a92a..5502d7f 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -142,8 +142,8 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
         ny, nx = data.shape
         dx = (xhi-xlo)/(nx-1.)
         dy = (yhi-ylo)/(ny-1.)
-        col = int((x-xlo)/dx+0.5)
-        row = int((y-ylo)/dy+0.5)
+        col = int(floor((x-xlo)/dx+0.5))
+        row = int(floor((y-ylo)/dy+0.5))
         if col>=0 and col<nx and row>=0 and row<ny:
             z = data[row,col]
             return 'x=%1.4f, y=%1.4f, z=%1.4f'%(x, y, z)
-- 
2.43.0


From 1548a57b7e6a3763f438fd15c95de7d691376a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 42/63] fix: powell() does not modify the directions it is
 given

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 7dbd9e2..a92fd28 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -182,7 +182,7 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
     n = len(p)
     if drxns is None:
         drxns = identity(n)
-        drxns = array(drxns, float)
+    drxns = array(drxns, float)  # a copy:  directions are replaced below
     if shuffle:
         vec = drxns[0].copy()  # must copy!
         for i in range(n-1):
-- 
2.43.0


From 07a418ac9c4a6bbfeea3d55337cf3fc999a41737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:54 +0000
Subject: [PATCH 43/63] fix: a refused vary() leaves the status of the
 parameter alone

---
 package/inference/pie/realparam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 4ebbebf..a6dbed3 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -235,13 +235,15 @@ class RealParamHandler(ScalarParamHandler):
         else:  # *** Perhaps use a default delta (& warn if so)?
             if self.delta == None:
                 raise ValueError('Need a delta for varying parameter!')
-        self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
+        # Verify the start value before changing the status.
         if start != None:
-            self.set_value(start)  # Note: this will verify in range.
+            if not (start >= self.lo and start <= self.hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
         elif self._value == None:
             raise ValueError('Need a start value for varying parameter!')
+        self._set_status(varying)
+        if start != None:
+            self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From 94a8469062fd4ddd4d9ae96565a58ee5f45b3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 44/63] fix: HPDGrid2D.plot() does not exchange the axes, and
 orders its levels

---
 package/inference/grid/hpdgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 2051daa..69a0e86 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -310,4 +310,5 @@ class HPDGrid2D(object):
     def plot(self):
         x,y = pl.meshgrid(self.xvals,self.yvals)
         pl.figure()
-        pl.contour(x,y,self.logpdf,self.levels)
+        # Matplotlib wants y along the first axis, and increasing levels.
+        pl.contour(x,y,self.logpdf.transpose(),sorted(self.levels))
-- 
2.43.0


From 2519b3c2ba0c72aa877537dc66cff575cf71d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 45/63] fix: population finds its extension module

---
 package/inference/mc/population.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3e105cf..adbaaf7 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -7,8 +7,8 @@ Classes and functions for describing and sampling discrete populations.
 __author__ = "Tom Loredo"
 
 from numpy import array, random
-from _ppssampler import _ppssampler, equalprob
-from _ppssampler import set_rng_state, get_rng_state
+from ._ppssampler import _ppssampler, equalprob
+from ._ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
 # try:
 #     import pylab as pl
-- 
2.43.0


From dd49ee0b62c205c5c5add8b795f888689249302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 46/63] fix: equal-probability subsets can be drawn

---
 package/inference/mc/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index adbaaf7..e34d540 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import array, random
+from numpy import arange, array, random
 from ._ppssampler import _ppssampler, equalprob
 from ._ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
-- 
2.43.0


From 4e03810793eb13a2fc833e40d69ed577e7ec64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 47/63] fix: subsets hand over the part of the RNG state the
 sampler takes, and keep the rest

---
 package/inference/mc/population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index e34d540..340df60 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -93,7 +93,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -125,7 +126,7 @@ class Population(object):
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(tuple(get_rng_state()) + rng_state[3:])
         return result
 
     def subset_pps5(self, nsamp):
@@ -140,7 +141,8 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        rng_state = random.get_state()
+        set_rng_state(*rng_state[:3])
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -178,7 +180,7 @@ class Population(object):
             # Note the 5-table version returns unsorted indices.
             # indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(tuple(get_rng_state()) + rng_state[3:])
         return result
 
 
-- 
2.43.0


From 6edcb585eb51967796a64204c445e7c1f8d01d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 48/63] fix: Population1D accepts sequences of values, and
 arrays of errors

---
 package/inference/mc/population.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 340df60..59c3c0f 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -192,10 +192,11 @@ class Population1D(Population):
     """
 
     def __init__(self, vals, weights, err=None):
-        indices = array(vals).argsort()
+        vals = array(vals)
+        indices = vals.argsort()
         self.vals = vals[indices].copy()
         self.weights = array(weights)[indices].copy()
-        if err == None:
+        if err is None:
             self.err = None
         else:
             self.err = array(err)[indices].copy()
@@ -225,7 +226,7 @@ class Population1D(Population):
         # The last step is zero.
         absc.append(end)
         ord.append(0.)
-        if self.err == None:
+        if self.err is None:
             return array(absc), array(ord)
         else:
             # For error bars, just copy the stored errors in the middle of
@@ -248,10 +249,10 @@ class Population1D(Population):
             start = self.vals[0]
         if end is None:
             end = self.vals[-1]
-        if self.err == None:
+        if self.err is None:
             a, o = self.haz_pts(start, end)
         else:
             a, o, ea, eo, ee = self.haz_pts(start, end)
         pl.plot(a, o, 'b-', linewidth=2)
-        if self.err != None:
+        if self.err is not None:
             pl.errorbar(ea, eo, ee, fmt='o', markersize=0)
-- 
2.43.0


From 548f8717cb87397413a73f717a8d5ad6d6fbc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 49/63] fix: the hazard of Population1D sums the weights of the
 values not yet passed

---
 package/inference/mc/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 59c3c0f..5cf2b8c 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -202,7 +202,7 @@ class Population1D(Population):
             self.err = array(err)[indices].copy()
         Population.__init__(self, self.vals, self.weights)
         self.cdf = self.weights.cumsum()
-        self.hazard = self.cdf[::-1].copy()
+        self.hazard = self.weights[::-1].cumsum()[::-1].copy()
 
     def haz_pts(self, start=None, end=None):
         """
-- 
2.43.0


From fe317821b48c5bd1dbbc7b274ac8917be8c85fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 50/63] fix: PWLinear.pdf() can be evaluated at the upper end
 of its domain

---
 package/inference/mc/pwlinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 398334f..156905e 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -208,6 +208,7 @@ class PWLinear(object):
         # Handle even step size case.
         elif self.step == 'lin':
             i = region[0] + int((x - region[2])/self.delta)
+            i = min(i, region[1]-1)  # x may be at the upper end
             return self.pdf_vals[i] + \
                 (self.pdf_vals[i+1]-self.pdf_vals[i]) * \
                 (x - self.absc[i])/(self.absc[i+1] - self.absc[i])
-- 
2.43.0


From 4a66c690a5854e92f6c1ce56d1cd0568a4581db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 51/63] fix: PWLinear treats values below the cutoff as zero,
 and accepts sequences of values

---
 package/inference/mc/pwlinear.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 156905e..a12710e 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -1,4 +1,4 @@
-from numpy import linspace, concatenate, zeros, sqrt, log, exp
+from numpy import array, linspace, concatenate, zeros, sqrt, log, exp
 from numpy import iterable, empty, any
 from numpy.random import rand
 from .population import Population
@@ -40,6 +40,7 @@ class PWLinear(object):
             maximum density will be treated as zero.  Must be nonzero if
             `logvals` is True.
         """
+        vals = array(vals, float)
         # Define the domain and abscissas.
         if not (lo is None) and not (hi is None):
             if step != 'lin':
@@ -68,6 +69,8 @@ class PWLinear(object):
         else:
             wvals = vals/max(vals)
             selected = (wvals > cut).nonzero()[0]
+            negl = (wvals <= cut).nonzero()[0]
+            wvals[negl] = 0.
 
         # Break up the selection into contiguous regions.
         # First get lists of indices to nonzero values in each region.
-- 
2.43.0


From 75ed90fad45d22b43eac1b2dc158d03a53c9d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:45 +0000
Subject: [PATCH 52/63] fix: sim1() keeps fractional locations and sigmas when
 the data have integer ones

---
 package/inference/pie/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 963b20c..9800a52 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -141,8 +141,10 @@ class SampledGaussianHandler(PredictorHandler):
         self.changing_data()
         if locn is not None:
             # *** Verify locn dimension!
+            self.locns = array(self.locns, float)
             self.locns[n] = locn
         if sigma is not None:
+            self.sigmas = array(self.sigmas, float)
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From 8dbb6e14f146bb6e4e3ffe2d29b028ab741aec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:45 +0000
Subject: [PATCH 53/63] fix: obs_info() puts the parameters back also when the
 calculation fails

---
 package/inference/pie/bayes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 41df810..c7e4c79 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -82,11 +82,13 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
-        # The calculation displaces the params; put them back at the mode.
-        self._logp_func(mode)
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            # The calculation displaces the params; put them back at the mode.
+            self._logp_func(mode)
         if err:
             return info, ierr
         else:
-- 
2.43.0


From a47ee66dbe679c9c1433464ee405eab7bed15027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:08 +0000
Subject: [PATCH 54/63] fix: a grid fit ignores vargrid when no parameters
 vary, as documented

---
 package/inference/pie/inference_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 89a4dab..1f14247 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -465,7 +465,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if self.varying_params and vargrid:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From 69f56605059de1334dd2f107c2f2d9f533be688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:08 +0000
Subject: [PATCH 55/63] fix: optimize() uses the tolerance it is given (or
 min_tol) for its final search

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 1f14247..36a2f87 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -490,6 +490,7 @@ class Inference(HasAutoNamed):
         if tol is None:
             if self.min_tol is None:
                 raise InferenceError('No minimization tolerance has been specified!')
+            tol = self.min_tol
         # Most methods require a vector of starting param values and
         # a scale for each; collect this info here (transformed if necessary).
         p, d = [], []
@@ -527,7 +528,7 @@ class Inference(HasAutoNamed):
             # subspace.
             dd = 0.2 * identity(len(d)) * array(d, float)
             params, extremum, extra = powell(self._score, params[:], drxns=dd,
-                                             ftol=1.e-3, maxit=200, shuffle=True)
+                                             ftol=tol, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
         # The minimizer's last trial point is usually not the optimum; leave
-- 
2.43.0


From f8a335eb8ce161b348e0d64c0e74ba922d3474e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:48 +0000
Subject: [PATCH 56/63] fix: a failed calculation left BA and BAObj with
 inconsistent results

---
 package/inference/gauss/vecba.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index b2f336a..9903bc9 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -98,17 +98,22 @@ class BA:
             args = list(args)
             args.append(aux)
             args = tuple(args)
+#...    Work with local copies, so a failure leaves the stored results intact.
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
             g = self.basis[a]
-            self.modvals[a,:] = g(*args) / self.sigs
+            modvals[a,:] = g(*args) / self.sigs
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
-        self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.std_smpls)
+        metric, L, Jac, proj, ampl, suf =\
+            vba.metricAnalysis(modvals, self.std_smpls)
+        self.Jac = 1. / Jac
+        self.modvals = modvals
+        self.metric, self.L, self.proj, self.ampl, self.suf =\
+            metric, L, proj, ampl, suf
         self.Q = self.dsqr - self.suf
         self.pars = params
-        self.Jac = 1. / self.Jac
 
     def amplitudes(self, *params):
         """Calculate the best-fit amplitudes."""
@@ -229,16 +234,21 @@ class BAObj:
 #...    Evaluate the standardized models on the data, first calling the setup
 #...    function.
         self.obj.set_nonlin(*params)
+#...    Work with local copies, so a failure leaves the stored results intact.
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
-            self.modvals[a,:] = self.obj.std_basis[a]()
+            modvals[a,:] = self.obj.std_basis[a]()
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
-        self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.obj.std_smpls)
+        metric, L, Jac, proj, ampl, suf =\
+            vba.metricAnalysis(modvals, self.obj.std_smpls)
+        self.Jac = 1. / Jac
+        self.modvals = modvals
+        self.metric, self.L, self.proj, self.ampl, self.suf =\
+            metric, L, proj, ampl, suf
         self.Q = self.dsqr - self.suf
         self.pars = params
-        self.Jac = 1. / self.Jac
 
     def amplitudes(self, *params):
         """Calculate the best-fit amplitudes."""
-- 
2.43.0


From 91e0f0b880f0cbdc2b88fb009817036adc00b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:28 +0000
Subject: [PATCH 57/63] fix: AttrStore.save() lost existing versions when a
 value could not be pickled

---
 package/inference/utils/ioutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 46b6502..f36e54e 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -319,9 +319,11 @@ class AttrStore(object):
                     attrs[name] = self._archive[name]
         for name, val in list(self._new.items()):
             attrs[name] = val
-        # Backup any existing file, and save the attrs to a new file.
+        # Backup any existing file, and save the attrs to a new file.  Pickle
+        # first, so nothing is replaced if a value cannot be pickled.
+        data = pkl.dumps(attrs, -1)  # use highest protocol
         ofile = safe_open(fname, 'b')
-        pkl.dump(attrs, ofile, -1)  # use highest protocol
+        ofile.write(data)
         ofile.close()
 
     def contents(self):
-- 
2.43.0


From 253d8c6d1be192e86e0e90ce03040950dfcd9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:26 +0000
Subject: [PATCH 58/63] fix: a refused vary() changed the range, and vary()
 accepted a current value outside the range

---
 package/inference/pie/realparam.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index a6dbed3..6a8470f 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -225,22 +225,24 @@ class RealParamHandler(ScalarParamHandler):
         return self.step_num
 
     def vary(self, start=None, delta=None, range=None):
-        if not range:
-            if not self.bounded:
-                raise ValueError('Need a range for varying parameter!')
+        # Verify everything before changing anything.
+        if range:
+            lo, hi = float(min(range)), float(max(range))
+        elif self.bounded:
+            lo, hi = self.lo, self.hi
         else:
-            self.range(range)
+            raise ValueError('Need a range for varying parameter!')
+        if delta is None and self.delta is None:
+            # *** Perhaps use a default delta (& warn if so)?
+            raise ValueError('Need a delta for varying parameter!')
+        if start is None and self._value is None:
+            raise ValueError('Need a start value for varying parameter!')
+        value = self._value if start is None else start
+        if not (value >= lo and value <= hi):
+            raise ParamRangeError("Value out of parameter's allowed range!")
+        self.range(lo, hi)
         if delta is not None:
             self.delta = delta
-        else:  # *** Perhaps use a default delta (& warn if so)?
-            if self.delta == None:
-                raise ValueError('Need a delta for varying parameter!')
-        # Verify the start value before changing the status.
-        if start != None:
-            if not (start >= self.lo and start <= self.hi):
-                raise ParamRangeError("Value out of parameter's allowed range!")
-        elif self._value == None:
-            raise ValueError('Need a start value for varying parameter!')
         self._set_status(varying)
         if start != None:
             self.set_value(start)
-- 
2.43.0


From b568ee6eb3da432fc0b8d04edc35e5fa6818dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:44 +0000
Subject: [PATCH 59/63] fix: refused stepping requests left a stepped parameter
 with mixed steps

---
 package/inference/pie/realparam.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 6a8470f..cd9bd4e 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -125,17 +125,16 @@ class RealParamHandler(ScalarParamHandler):
         if self.bounded and hi != None:
             if hi < self.lo or hi > self.hi:
                 raise ParamRangeError("hi step out of parameter's allowed range!")
-        self.stype = lin_steps
         if lo is None:
-            self.slo = self.lo
-        else:
-            self.slo = lo
+            lo = self.lo
         if hi is None:
-            self.shi = self.hi
-        else:
-            self.shi = hi
+            hi = self.hi
+        delta = (hi-lo)/(n-1.)
+        self.stype = lin_steps
+        self.slo = lo
+        self.shi = hi
         self.steps = n
-        self.delta = (self.shi-self.slo)/(n-1.)
+        self.delta = delta
         self.step_num = 0
         self._set_value(self.slo)
         self._set_status(stepping)
@@ -158,11 +157,12 @@ class RealParamHandler(ScalarParamHandler):
             hi = self.hi
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
+        fac = exp(log(hi/lo)/(n-1.))
         self.stype = log_steps
         self.slo = lo
         self.shi = hi
         self.steps = n
-        self.fac = exp(log(hi/lo)/(n-1.))
+        self.fac = fac
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
-- 
2.43.0


From 8fab4fe94972f93cd2f2d53cd0dc9313bd2fa692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:17 +0000
Subject: [PATCH 60/63] fix: a simulation that failed in the model left data,
 locations and errors inconsistent

---
 package/inference/pie/gaussian.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 9800a52..f98854f 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -75,6 +75,18 @@ class SampledGaussianHandler(PredictorHandler):
             else:
                 self.prdxns = [self.owner.signal(*locn) for locn in self.locns]
                 
+    def update_prdxns(self, old):
+        """
+        Calculate predictions for changed locations or sigmas.  If this fails,
+        return to the old (locns, sigmas, ndata, dimen), so they remain
+        consistent with the data values.
+        """
+        try:
+            self.get_prdxns()
+        except:
+            self.locns, self.sigmas, self.ndata, self.dimen = old
+            raise
+
     def log_like(self):
     # *** Memoize:  Add ability to retrieve log_like value when already
     # calculated.
@@ -109,6 +121,7 @@ class SampledGaussianHandler(PredictorHandler):
         different than that in the original data set.
         """
         self.changing_data()
+        old = self.locns, self.sigmas, self.ndata, self.dimen
         # Change the data locns/sigmas if necessary.
         if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
@@ -124,7 +137,7 @@ class SampledGaussianHandler(PredictorHandler):
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
             self.sigmas = array(sigmas)
-        self.get_prdxns()
+        self.update_prdxns(old)
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
     
@@ -139,6 +152,7 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
+        old = self.locns, self.sigmas, self.ndata, self.dimen
         if locn is not None:
             # *** Verify locn dimension!
             self.locns = array(self.locns, float)
@@ -146,7 +160,7 @@ class SampledGaussianHandler(PredictorHandler):
         if sigma is not None:
             self.sigmas = array(self.sigmas, float)
             self.sigmas[n] = sigma
-        self.get_prdxns()
+        self.update_prdxns(old)
         # Sample datum via Gaussian.
         self.vals[n] = self.prdxns[n] + self.sigmas[n]*stdnorm.rvs()
         
@@ -161,6 +175,7 @@ class SampledGaussianHandler(PredictorHandler):
         mutiple additional data.
         """
         self.changing_data()
+        old = self.locns, self.sigmas, self.ndata, self.dimen
         # First adjust locns and sigmas.
         if locn is not None and sigma is not None:
             nadd = 1
@@ -182,7 +197,7 @@ class SampledGaussianHandler(PredictorHandler):
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
         # Update predictions.
-        self.get_prdxns()
+        self.update_prdxns(old)
         # Sample the new data via Gaussians.
         new = self.prdxns[-nadd:] + self.sigmas[-nadd:]*stdnorm.rvs(nadd)
         self.vals = concatenate( (self.vals, new) )
-- 
2.43.0


From c4405d37d85cd3abf40f042313572171f432341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:21 +0000
Subject: [PATCH 61/63] fix: an inference lists every declared parameter and
 predictor

The names were taken from the source text of the mixin classes.  Aligned
declarations lost all parameters silently (or made it impossible to create the
inference), names mentioned in a docstring changed the order, missing source code
failed or altered the class, and derived classes were not found.
---
 package/inference/pie/inference_base.py | 111 ++++--------------------
 package/inference/pie/param.py          |   3 +-
 package/inference/pie/predictor.py      |   3 +-
 3 files changed, 21 insertions(+), 96 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 36a2f87..bc73c16 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -2,7 +2,6 @@
 Utilities and base class for inferences.
 """
 
-import inspect
 
 from .param import *
 from .autoname import HasAutoNamed
@@ -85,105 +84,29 @@ class Inference(HasAutoNamed):
         # *** Provide hooks for storing state or calculating candidate state
         # before storing it, to facilitate MCMC.
 
-        # Reorder the param names associated with this inference to reflect
-        # the order in the source code (the metaclass will order them in a
-        # shuffled order, the order of keys in the class dict).
-        # First, get the SignalModel and Predictors mixin classes.
-        for cls in self.__class__.__bases__:
-            if SignalModel in cls.__bases__:
-                self.signal_class = cls
-            elif PredictorSet in cls.__bases__:
-                self.pred_class = cls
-        # Get the names of params and predictors from the mixins.
-        # Get them from source if available, to preserve the order
-        # in which the user defined them.
-        # Be careful gathering params; the PredictorSet mixin class
+        # Get the names of params and predictors from the SignalModel and
+        # PredictorSet mixin classes, in the order in which the user defined
+        # them.  Be careful gathering params; the PredictorSet mixin class
         # may have params.
-        try:
-            unordered = self.signal_class.param_names[:]
-            self.params = self._get_signal_names(unordered)
-        except:
-            self.params = []
-        try:
-            unordered = self.pred_class.param_names[:]
-        except:
-            unordered = []
-        oparams, self.predictors = self._get_pred_names(unordered)
-        self.params.extend(oparams)
+        self.params = self._get_names(SignalModel, 'param_names')
+        self.params.extend(self._get_names(PredictorSet, 'param_names'))
+        self.predictors = self._get_names(PredictorSet, 'predictor_names')
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
         if len(set(self.params)) != len(self.params):
             raise InferenceError('A parameter name is duplicated within this inference!')
 
-    def _get_signal_names(self, signal_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.signal_class)[0]
-            for line in source:
-                line = line.strip()
-                for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
-                        oparams.append(param)
-                        signal_params.remove(param)
-            if signal_params != []:
-                raise InferenceError('Some params not defined in SignalModel source!')
-        except IOError:  # Only in the unlikely event of interactive model def'n
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
-        except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
-        return oparams
-
-    def _get_pred_names(self, pred_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.pred_class)[0]
-            if pred_params:
-                for line in source:
-                    line = line.strip()
-                    for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
-                            oparams.append(param)
-                            pred_params.remove(param)
-                if pred_params != []:
-                    raise InferenceError('Some params not defined in Predictors source!')
-            # Now do the same to get the Predictor order.
-            opreds = []
-            preds = self.pred_class.predictor_names[:]
-            for line in source:
-                line = line.strip()
-                for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
-                        opreds.append(pred)
-                        preds.remove(pred)
-            if preds != []:
-                raise InferenceError('Some Predictor(s) not defined in Predictors source!')
-        except IOError:  # Only in the unlikely event of interactive pred. def'n
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        return oparams, opreds
-        # Make sure params are unique; i.e., that the Predictors class
-        # hasn't duplicated a param name.
-        if len(set(self.params)) != len(self.params):
-            raise InferenceError('A parameter name is duplicated within this inference!')
+    def _get_names(self, base, attr):
+        """Return the names collected in attribute `attr` of the mixin classes
+        derived from `base`.  Class definitions preserve the order of their
+        attributes, so the names are in the order of the source."""
+        names = []
+        for cls in self.__class__.__mro__:
+            if issubclass(cls, base) and not issubclass(cls, Inference):
+                for name in getattr(cls, attr, []):
+                    if name not in names:
+                        names.append(name)
+        return names
 
     def _on_param_status_change(self, param, old, new):
         """Maintain lists of fixed, varying, and stepping variables. Initialize
diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index e2af4ca..2917579 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -89,7 +89,8 @@ class Param(AutoNamed):
         # inherited from is not altered.
         if 'param_names' not in cls.__dict__:
             cls.param_names = list(getattr(cls, 'param_names', []))
-        cls.param_names.append(name)
+        if name not in cls.param_names:  # an inherited one may be redefined
+            cls.param_names.append(name)
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index cfd37d9..60af6b4 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -63,7 +63,8 @@ class Predictor(AutoNamed):
         # inherited from is not altered.
         if 'predictor_names' not in cls.__dict__:
             cls.predictor_names = list(getattr(cls, 'predictor_names', []))
-        cls.predictor_names.append(name)
+        if name not in cls.predictor_names:  # an inherited one may be redefined
+            cls.predictor_names.append(name)
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From 811d750cba217b1431b1a60f787a6a65936cb960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:37 +0000
Subject: [PATCH 62/63] fix: data of a second predictor set, and declarations
 in an inference class, were ignored

---
 package/inference/pie/bayes.py          |  2 +-
 package/inference/pie/chisqr.py         |  2 +-
 package/inference/pie/inference_base.py | 14 ++++++++++----
 package/inference/pie/maxlike.py        |  2 +-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index c7e4c79..53bbd78 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -35,7 +35,7 @@ class BayesianInference(Inference):
         the expected utility.
         """
         self._log_like = 0.
-        for name in self.predictor_names:
+        for name in self.predictors:
             self._log_like += getattr(self, name).log_like()
         self._log_prior = self.log_prior()
         return self._log_like + self._log_prior
diff --git a/package/inference/pie/chisqr.py b/package/inference/pie/chisqr.py
index 1e1d55d..6e2805b 100644
--- a/package/inference/pie/chisqr.py
+++ b/package/inference/pie/chisqr.py
@@ -19,6 +19,6 @@ class ChisqrInference(Inference):
 
         For chi**2 fitting, this is simply chi**2."""
         chi2 = 0.
-        for name in self.predictor_names:
+        for name in self.predictors:
             chi2 += getattr(self, name).chisqr()
         return chi2
diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index bc73c16..5845b57 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -95,14 +95,20 @@ class Inference(HasAutoNamed):
         # hasn't duplicated a param name.
         if len(set(self.params)) != len(self.params):
             raise InferenceError('A parameter name is duplicated within this inference!')
+        # The inference class itself may define params and predictors.
+        self.params += [name for name in self._get_names(Inference, 'param_names')
+                        if name not in self.params]
+        self.predictors += [name for name in self._get_names(Inference, 'predictor_names')
+                            if name not in self.predictors]
 
     def _get_names(self, base, attr):
-        """Return the names collected in attribute `attr` of the mixin classes
-        derived from `base`.  Class definitions preserve the order of their
-        attributes, so the names are in the order of the source."""
+        """Return the names collected in attribute `attr` of the classes derived
+        from `base` (mixin classes unless `base` is Inference itself).  Class
+        definitions preserve the order of their attributes, so the names are
+        in the order of the source."""
         names = []
         for cls in self.__class__.__mro__:
-            if issubclass(cls, base) and not issubclass(cls, Inference):
+            if issubclass(cls, base) and issubclass(cls, Inference) == (base is Inference):
                 for name in getattr(cls, attr, []):
                     if name not in names:
                         names.append(name)
diff --git a/package/inference/pie/maxlike.py b/package/inference/pie/maxlike.py
index 52cd7dd..a3c0a6f 100644
--- a/package/inference/pie/maxlike.py
+++ b/package/inference/pie/maxlike.py
@@ -18,6 +18,6 @@ class MaxLikeInference(Inference):
         The function to optimize in a fit---here the log likelihood.
         """
         self._log_like = 0.
-        for name in self.predictor_names:
+        for name in self.predictors:
             self._log_like += getattr(self, name).log_like()
         return self._log_like
-- 
2.43.0


From 50e67520bb291ae45a5ac27a6ae7e031c41f7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:16 +0000
Subject: [PATCH 63/63] fix: the grayscale image asked of a grid's plot was not
 drawn

---
 package/inference/pie/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/containers.py b/package/inference/pie/containers.py
index 6113ccd..8539198 100644
--- a/package/inference/pie/containers.py
+++ b/package/inference/pie/containers.py
@@ -111,7 +111,7 @@ class ScalarGrid(object):
                 except:
                     pl.figure()  # start a new figure by default
                 plot_bivar(xvals, yvals, self.values, xlabel=x_name,
-                           ylabel=y_name, **kwds)
+                           ylabel=y_name, gscale=gscale, **kwds)
             else:
                 raise NotImplementedError('Plotting log steps not yet implemented!')
         else:
-- 
2.43.0

