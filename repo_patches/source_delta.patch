From ca39c17424bd681c43d739e7a77d6746815f0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:04 +0000
Subject: [PATCH 01/37] fix: lagged variables and shocks in the constraint
 equation enter with the written sign

---
 pydsge/gensys.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 456947a..dc3d0bc 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -248,6 +248,8 @@ def gen_sys(
 
     # y-space is the space of the original variables augmented by the shocks
     c_arg = list(vv0).index(str(self.const_var))
+    if fd0 is not None:
+        fd0 = -fd0 / fb0[c_arg]
     fc0 = -fc0 / fb0[c_arg]
     fb0 = -fb0 / fb0[c_arg]
 
@@ -259,7 +261,7 @@ def gen_sys(
         print("[gen_sys:]".ljust(15, " ") + f" Backward-looking variables: {bwd_vars}", flush=True)
 
 
-    inall = ~fast0(AA0, 0) & ~fast0(CC0, 0)
+    inall = ~fast0(AA0, 0) & (~fast0(CC0, 0) | ~fast0(fc0))
 
     if verbose > 1:
         hyb_vars = [self.variables[i].name for i, e in enumerate(inall) if e]
@@ -281,6 +283,8 @@ def gen_sys(
         BB0[-sum(inall):, : -sum(inall)][:, inall] = -np.eye(sum(inall))
         CC0[:, -sum(inall):] = CC0[:, : -sum(inall)][:, inall]
         CC0[:, : -sum(inall)][:, inall] = 0
+        fc0[-sum(inall):] = fc0[: -sum(inall)][inall]
+        fc0[: -sum(inall)][inall] = 0
 
     if verbose > 1:
         print("[gen_sys:]".ljust(15, " ") + f" {sum(inall)} auxiliary variables have been added", flush=True)
@@ -291,7 +295,7 @@ def gen_sys(
     CC0 = np.block([[CC0, DD0], [np.zeros((dimeps, AA0.shape[1]))]])
     fb0 = np.pad(fb0, (0, dimeps))
     if fd0 is not None:
-        fc0 = -np.hstack((fc0, fd0))
+        fc0 = np.hstack((fc0, fd0))
     else:
         fc0 = np.pad(fc0, (0, dimeps))
 
-- 
2.43.0


From 9987c25ce9a5f5b35a49d8d9f42fd213736c19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:33 +0000
Subject: [PATCH 02/37] fix: leads of three and more periods are chained
 instead of all being the first lead

---
 pydsge/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 9797a5c..8a3b545 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -863,7 +863,10 @@ class DSGE(Model):
             for i in np.arange(2, abs(max_lead_endo[v]) + 1):
                 var_l = Variable(v.name + "_LEAD" + str(i - 1))
 
-                var_l_1 = v(+1)
+                if i == 2:
+                    var_l_1 = v(+1)
+                else:
+                    var_l_1 = Variable(v.name + "_LEAD" + str(i - 2), date=+1)
 
                 subs_dict[Variable(v.name, date=+i)] = var_l(+1)
                 var_ordering.append(var_l)
-- 
2.43.0


From 1932b19c3cf0c6eaa48b14ea2ceeeea79e78d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:52 +0000
Subject: [PATCH 03/37] fix: set_par takes a string for a name even if it is as
 long as a parameter vector

---
 pydsge/mpile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index cc2be92..2ff025c 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -311,7 +311,7 @@ def set_par(
         self, "par") else np.array(self.par_fix)
 
     if setpar is None:
-        if dummy is None:
+        if dummy is None or isinstance(dummy, str):
             par = get_par(
                 self, dummy=dummy, asdict=False, full=True, verbose=verbose, **args
             )
-- 
2.43.0


From 1603cc0e6aed19af79ee3ec76ef3c41a6cc469e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 04/37] fix: get_par with a parameter set does not overwrite
 the model's current parameters

---
 pydsge/mpile.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 2ff025c..b3b289f 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -190,13 +190,18 @@ def get_par(
                 )
 
         else:
-            old_par = self.par
             pars = self.par_fix
-            self.par = self.par_fix
             if dummy == "prior":
-                par_cand = prior_sampler(
-                    self, nsamples=nsamples, verbose=verbose, debug=debug, **args
-                )
+                # draws are to be combined with the calibrated parameters
+                old_par = self.par
+                self.par = self.par_fix
+                try:
+                    par_cand = prior_sampler(
+                        self, nsamples=nsamples, verbose=verbose, debug=debug, **args
+                    )
+                finally:
+                    if self.par is self.par_fix:
+                        self.par = old_par
             elif dummy in ("post", "posterior"):
                 par_cand = posterior_sampler(
                     self, nsamples=nsamples, verbose=verbose, **args
@@ -239,7 +244,6 @@ def get_par(
                         par_cand[i] = self.par_fix[self.prior_arg][i]
 
             else:
-                self.par = old_par
                 raise KeyError(
                     "Parameter or parametrization '%s' does not fit/exist." % dummy
                 )
-- 
2.43.0


From 52dcefd9751dcc7fd78310e9e67a0b90ba7cd4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 05/37] fix: a model read from the cache carries the path of
 the file that was read

---
 pydsge/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 8a3b545..bf6c705 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -517,6 +517,8 @@ class DSGE(Model):
             if verbose:
                 print("[DSGE:]".ljust(15, " ") + " Model is already parsed, reusing parsed model")
             pmodel = deepcopy(processed_raw_model)
+            pmodel.path = os.path.dirname(mfile)
+            pmodel.func_file = func_file
 
         else:
 
-- 
2.43.0


From d2cf572890ec9d30bfee08c969c159d28407d03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:11 +0000
Subject: [PATCH 06/37] fix: a model without functions file is not served from
 the cache of one with a functions file

---
 pydsge/parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index bf6c705..855768d 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -30,9 +30,7 @@ def crawl_cached_models(mtxt, ftxt):
         for i in cached_models:
 
             use_cached = cached_models[i].fdict["yaml_raw"] == mtxt
-
-            if ftxt is not None:
-                use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
+            use_cached &= cached_models[i].fdict.get("ffile_raw") == ftxt
 
             if use_cached:
                 processed_raw_model = cached_models[i]
-- 
2.43.0


From 42f77585ce3bd2054ed2eec4481ff9261cc0a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:11 +0000
Subject: [PATCH 07/37] fix: traj returns the trajectory under the given (l,k),
 not (l,k-1)

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 2e8278e..bdc70ce 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -513,7 +513,7 @@ def traj(self, state, l=None, k=None, verbose=True):
 
     tmat, tterm = self.precalc_tmat
 
-    return tmat[:, l, k - 1] @ state + tterm[:, l, k - 1]
+    return tmat[:, l, k] @ state + tterm[:, l, k]
 
 
 def k_map(self, state, l=None, k=None, verbose=True):
-- 
2.43.0


From bf1f196e30bddeacf0f2af30f95bacaa705baae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:26 +0000
Subject: [PATCH 08/37] fix: trajectories are recalculated after the system has
 changed

---
 pydsge/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 990141c..8eb91fe 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -193,6 +193,10 @@ def preprocess(self, PU, MU, PR, MR, gg, fq1, fp1, fq0, parallel=False, verbose=
         PU, MU, PR, MR, gg, fq1, fp1, fq0, omg, lam, x_bar, l_max, k_max
     )
 
+    # trajectories of the previous system are outdated
+    if hasattr(self, "precalc_tmat"):
+        del self.precalc_tmat
+
     if verbose:
         print(
             "[preprocess:]".ljust(15, " ")
-- 
2.43.0


From 0084a8820fbb2170a01c559f3effcbfef14b8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 09/37] fix: methods work on a model whose estimation was
 prepared without a pool

---
 pydsge/estimation.py | 4 ++--
 pydsge/filtering.py  | 2 +-
 pydsge/mcmc.py       | 2 +-
 pydsge/mpile.py      | 2 +-
 pydsge/tools.py      | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index 87225ad..fa265e1 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -250,7 +250,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 
     import pathos
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         ncores = ncores or self.pool.ncpus
         self.pool.close()
     else:
@@ -281,7 +281,7 @@ def create_pool(self, ncores=None, threadpool_limit=None):
 @property
 def mapper(self):
 
-    if hasattr(self, "pool") and not self.debug:
+    if getattr(self, "pool", None) and not self.debug:
         return self.pool.imap
     else:
         return map
diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 519c53c..483d61d 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -357,7 +357,7 @@ def extract(
     fname = self.filter.name
     verbose = max(verbose, debug)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 734adc7..2485c6c 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -79,7 +79,7 @@ def mcmc(
 
         self.pool = None
 
-    elif hasattr(self, "pool"):
+    elif getattr(self, "pool", None):
 
         from .estimation import create_pool
 
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index b3b289f..6b1e84c 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -73,7 +73,7 @@ def prior_sampler(
 
     self.debug |= debug
 
-    if not debug and hasattr(self, "pool"):
+    if not debug and getattr(self, "pool", None):
 
         from .estimation import create_pool
         create_pool(self)
diff --git a/pydsge/tools.py b/pydsge/tools.py
index bdc70ce..dbdd484 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -208,7 +208,7 @@ def irfs(
     if not hasattr(self, "par"):
         gen_sys(self, verbose=verbose, **args)
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
@@ -416,7 +416,7 @@ def simulate(
 
     self.debug |= debug
 
-    if hasattr(self, "pool"):
+    if getattr(self, "pool", None):
         from .estimation import create_pool
 
         create_pool(self)
-- 
2.43.0


From 83c354902a51c68b6de80226b35f87265e70bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 10/37] fix: simulate works without a source if all its parts
 are given

---
 pydsge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index dbdd484..de6ccfc 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -465,7 +465,7 @@ def simulate(
     res = wrap(
         self.mapper(runner, zip(*sample)),
         unit=" sample(s)",
-        total=len(source["pars"]),
+        total=len(pars),
         dynamic_ncols=True,
     )
 
-- 
2.43.0


From 109fb5770ea98a2bd5e2ae0329d6a9b40077159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:48 +0000
Subject: [PATCH 11/37] fix: load_rdict finds what save_rdict stored under the
 same path and suffix

---
 pydsge/clsmethods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 34a8df6..396b90e 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -182,10 +182,10 @@ def load_rdict(self, path=None, suffix=""):
     if path is None:
         path = self.name + "_res"
 
-    path += suffix
+    if path[-4:] == ".npz":
+        path = path[:-4]
 
-    if path[-4] != ".npz":
-        path += ".npz"
+    path += suffix + ".npz"
 
     if not os.path.isabs(path):
         path = os.path.join(self.path, path)
-- 
2.43.0


From 5adb2410967a96a107b015a401310961e346664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:49 +0000
Subject: [PATCH 12/37] fix: gen_sys_from_dict works for models without
 observables

---
 pydsge/gensys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index dc3d0bc..38c600e 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -240,7 +240,7 @@ def gen_sys(
 
     # start
     vv0 = self.vv
-    ZZ0 = None if not len(ZZ0) else ZZ0
+    ZZ0 = None if ZZ0 is None or not len(ZZ0) else ZZ0
 
     # z-space is the space of the original variables
     dimx = len(vv0)
-- 
2.43.0


From 5ff11857dd59180d57a0182fa02c3e9cbeb8ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 13/37] fix: irfs work for models created by gen_sys_from_dict

---
 pydsge/gensys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/gensys.py b/pydsge/gensys.py
index 38c600e..e49a989 100644
--- a/pydsge/gensys.py
+++ b/pydsge/gensys.py
@@ -48,6 +48,7 @@ def gen_sys_from_dict(
     self = DSGE_DUMMY()
     self.debug = True
     self.set_par = None
+    self.par = None
     self.fdict = mdict
 
     # fix value of x_bar
-- 
2.43.0


From 0b93eaff39dc99695797fcf5743aa3db83986141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:12 +0000
Subject: [PATCH 14/37] fix: mcmc stores the mode if tune is left at its
 default

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 2485c6c..0ca0490 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -162,8 +162,8 @@ def mcmc(
 
     if temp == 1:
 
-        log_probs = sampler.get_log_prob()[-tune:]
-        chain = sampler.get_chain()[-tune:]
+        log_probs = sampler.get_log_prob()[-self.tune:]
+        chain = sampler.get_chain()[-self.tune:]
         chain = chain.reshape(-1, chain.shape[-1])
 
         arg_max = log_probs.argmax()
-- 
2.43.0


From 89f8c382274d33ec7679a4a469feef1867463f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:12 +0000
Subject: [PATCH 15/37] fix: mcmc without p0 draws the requested number of
 walkers

---
 pydsge/mcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 0ca0490..5c470ad 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -110,12 +110,12 @@ def mcmc(
                 "prior_mean",
                 asdict=False,
                 full=False,
-                nsample=nwalks,
+                nsamples=nwalks or 1,
                 verbose=verbose > 1,
             )
         else:
             p0 = get_par(
-                self, "best", asdict=False, full=False, nsample=nwalks, verbose=verbose > 1
+                self, "best", asdict=False, full=False, nsamples=nwalks or 1, verbose=verbose > 1
             )
     elif not resume:
         nwalks = p0.shape[0]
-- 
2.43.0


From 50b2ac871a351e8c00ea3decc2f61d07cfb2a8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:12 +0000
Subject: [PATCH 16/37] fix: mcmc stores the mode in terms of the model
 parameters under prior transformation

---
 pydsge/mcmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 5c470ad..ffcb411 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -170,6 +170,9 @@ def mcmc(
         mode_f = log_probs.flat[arg_max]
         mode_x = chain[arg_max].flatten()
 
+        if self.bptrans:
+            mode_x = self.bptrans(mode_x)
+
         self.fdict["mode_x"] = mode_x
         self.fdict["mode_f"] = mode_f
 
-- 
2.43.0


From 9750540c233225ddfbfda38c130811f0d37b6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:35 +0000
Subject: [PATCH 17/37] fix: load_data selects the requested range if the data
 has a numeric index

---
 pydsge/clsmethods.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 396b90e..90ee8d1 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -312,11 +312,12 @@ def load_data(self, df, start=None, end=None):
 
         d = df[self.observables]
 
-    if start is not None:
-        start = str(start)
+    if not pd.api.types.is_numeric_dtype(d.index):
+        if start is not None:
+            start = str(start)
 
-    if end is not None:
-        end = str(end)
+        if end is not None:
+            end = str(end)
 
     d = d.loc[start:end]
 
-- 
2.43.0


From 848c32ed838f4dbf69b0810cb3afa462042c6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 18/37] fix: irfs respect the constraint if it starts to bind
 before or between shocks

---
 pydsge/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index de6ccfc..82e3ba0 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -267,7 +267,8 @@ def irfs(
 
             # force_init_equil will force recalculation of l,k only if the shock vec is not empty
             # but loop must be skipped if no shock is provided at all (e.g. if samplinf from a state distribution)
-            if force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]):
+            # and if there is no spell (left) to be continued, the constraint may bind anew
+            if force_init_equil and not np.any(shk_vec) and np.any([s[2] for s in new_shocklist]) and (l or k > 1):
                 set_k_eff = (l - 1, k) if l else (l, max(k - 1, 0))
 
                 _, (l_endo, k_endo), flag = pelf.t_func(
-- 
2.43.0


From 28570a1e5f3ec401228d5083aac6c301945d052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 19/37] fix: get_sample draws from the most recent part of the
 given chain

---
 pydsge/clsmethods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 90ee8d1..2ae6d93 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -334,14 +334,14 @@ def load_data(self, df, start=None, end=None):
 def get_sample(self, size, chain=None):
     """Get a (preferably recent) sample from the chain"""
 
-    chain = None or self.get_chain()
+    chain = self.get_chain() if chain is None else chain
     clen, nwalks, npar = chain.shape
     recent = int(np.ceil(60 / nwalks))
 
     if recent > clen:
         raise Exception("Requested sample size is larger than chain")
 
-    sample = chain[:, -recent, :].reshape(-1, npar)
+    sample = chain[-recent:].reshape(-1, npar)
     res = np.random.choice(np.arange(recent * nwalks), size, False)
 
     return sample[res]
-- 
2.43.0


From 91aaac25297c7d6a46f483ea14bda728be3c40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:52 +0000
Subject: [PATCH 20/37] fix: observables of a single state vector can be
 calculated

---
 pydsge/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 82e3ba0..18d2c06 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -141,8 +141,7 @@ def o_func(self, state, covs=None, pars=None):
         )
 
     if np.ndim(state) <= 1:
-        data = self.data.index if hasattr(self, "data") else None
-        obs = pd.DataFrame(obs, index=data, columns=self.observables)
+        obs = pd.DataFrame(obs.reshape(1, -1), columns=self.observables)
 
     if covs is None:
         return obs
-- 
2.43.0


From 124b2cc03b64401188487f4d0555cf28c8add107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:15 +0000
Subject: [PATCH 21/37] fix: gfevd works on the results of extract

---
 pydsge/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydsge/stats.py b/pydsge/stats.py
index 7f0ae45..3d1c8d2 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -69,7 +69,10 @@ def gfevd(
     """
     np.random.seed(seed)
 
-    states = eps_dict["means"]
+    if "means" in eps_dict:
+        states = eps_dict["means"]
+    else:
+        states = self.simulate(eps_dict, linear=linear, **args)[0]
     if np.ndim(states) == 2:
         states = np.expand_dims(states, 0)
     states = states[:, :-1, :]
-- 
2.43.0


From 54289a5e331dbd351d6b08051363241c7c928813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 22/37] fix: set_par leaves the model unchanged if the new
 parameters have no solution

---
 pydsge/mpile.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 6b1e84c..b3d447b 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -346,7 +346,14 @@ def set_par(
         raise SyntaxError(
             "Parameter '%s' is not defined for this model." % dummy)
 
-    gen_sys(self, par=list(par), verbose=verbose, **args)
+    old_state = self.__dict__.copy()
+    try:
+        gen_sys(self, par=list(par), verbose=verbose, **args)
+    except BaseException:
+        # without solution the model must remain as it was
+        self.__dict__.clear()
+        self.__dict__.update(old_state)
+        raise
 
     if hasattr(self, "filter"):
         Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
-- 
2.43.0


From 36f9baeec83c357ecf230c1a523a31c96907d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 23/37] fix: a failed likelihood evaluation does not leave
 parameters without their solution behind

---
 pydsge/estimation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydsge/estimation.py b/pydsge/estimation.py
index fa265e1..3d2ad8f 100644
--- a/pydsge/estimation.py
+++ b/pydsge/estimation.py
@@ -150,6 +150,7 @@ def prep_estim(
     def llike(parameters, par_fix, linear, verbose, seed):
 
         random_state = np.random.get_state()
+        old_state = self.__dict__.copy()
         with warnings.catch_warnings(record=True):
             try:
                 warnings.filterwarnings("error")
@@ -163,6 +164,7 @@ def prep_estim(
                 self.gen_sys(
                     par=par_active_lst, l_max=l_max, k_max=k_max, verbose=verbose > 3
                 )
+                old_state = None
                 self.filter.Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
 
                 ll = get_ll(self, verbose=verbose > 2, dispatch=dispatch)
@@ -182,6 +184,11 @@ def prep_estim(
                         print(pardict)
                         self.box_check([*pardict.values()])
 
+                if old_state is not None:
+                    # without solution the model must remain as it was
+                    self.__dict__.clear()
+                    self.__dict__.update(old_state)
+
                 np.random.set_state(random_state)
                 return -np.inf
 
-- 
2.43.0


From ae58cdd909fd2bdff0d1e6cac6bf96e81d17c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 24/37] fix: obs with pars does not change the parameters of
 the model

---
 pydsge/tools.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pydsge/tools.py b/pydsge/tools.py
index 18d2c06..89279a0 100644
--- a/pydsge/tools.py
+++ b/pydsge/tools.py
@@ -117,14 +117,21 @@ def o_func(self, state, covs=None, pars=None):
     if pars is not None:
 
         obs = []
-        for sti, par in zip(state, pars):
-            self.set_par(par, get_hx_only=True)
-            ob = (
-                sti[:, : self.dimp] @ self.hx[0].T
-                + sti[:, self.dimp:] @ self.hx[1].T
-                + self.hx[2]
-            )
-            obs.append(ob)
+        old_state = self.__dict__.copy()
+        self.__dict__.pop("filter", None)
+        try:
+            for sti, par in zip(state, pars):
+                self.set_par(par, get_hx_only=True)
+                ob = (
+                    sti[:, : self.dimp] @ self.hx[0].T
+                    + sti[:, self.dimp:] @ self.hx[1].T
+                    + self.hx[2]
+                )
+                obs.append(ob)
+        finally:
+            # the solution is not updated, so the model must remain as it was
+            self.__dict__.clear()
+            self.__dict__.update(old_state)
 
         return np.array(obs)
 
-- 
2.43.0


From be1e6dd84ca46ed90cf077391abc8527abb1f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:58 +0000
Subject: [PATCH 25/37] fix: get_cov does not change the parameters of the
 model

---
 pydsge/mpile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index b3d447b..466ca69 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -174,8 +174,7 @@ def get_par(
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
         if dummy == "cov_mat":
-            gen_sys(self, pars, **args)
-            p = self.QQ(self.ppar)
+            p = self.QQ(self.pcompile(list(pars)))
             if verbose:
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
-- 
2.43.0


From 3acf51c80ff28377ffe5da76910940a9aa58f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:29 +0000
Subject: [PATCH 26/37] fix: lagged variables in observation equations are
 rejected instead of ignored

---
 pydsge/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 855768d..5952b23 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -338,6 +338,14 @@ class DSGE(Model):
             eq = self["obs_equations"][str(obs)]
             ZZ1[eq_i, 0] = eq.subs(subs_dict)
 
+            obs_lag = [x for x in eq.atoms(Variable) if x.date < 0]
+
+            if obs_lag:
+                raise NotImplementedError(
+                    "Lagged variables in the observation equations are not (yet) implemented: ",
+                    *obs_lag
+                )
+
             curr_var = filter(lambda x: x.date >= 0, eq.atoms(Variable))
 
             for v in curr_var:
-- 
2.43.0


From 4866b9f4007ee6e54f99d4840082c49053cd8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:44 +0000
Subject: [PATCH 27/37] fix: info works for a loaded model whose chain is not
 available

---
 pydsge/clsmethods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/clsmethods.py b/pydsge/clsmethods.py
index 2ae6d93..7d63a1d 100644
--- a/pydsge/clsmethods.py
+++ b/pydsge/clsmethods.py
@@ -274,7 +274,7 @@ def info_m(self, verbose=True, **args):
         res += "Parameters: %s\n" % cshp[2]
         res += "Chains: %s\n" % cshp[1]
         res += "Last %s of %s samples\n" % (tune, cshp[0])
-    except (AttributeError, KeyError):
+    except (AttributeError, KeyError, NameError):
         pass
 
     if verbose:
-- 
2.43.0


From 4fb4958aec51dad1eaf8c753e50979c6042031a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 28/37] fix: the search for durations ends with a flag if k_max
 is zero

---
 pydsge/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydsge/engine.py b/pydsge/engine.py
index 8eb91fe..43e53c9 100644
--- a/pydsge/engine.py
+++ b/pydsge/engine.py
@@ -295,6 +295,10 @@ def find_lk(bmat, bterm, x_bar, q):
             loop_type = False
 
             while True:
+                if k == k_max - 1:
+                    # set error flag 'no solution + k_max reached'
+                    flag = 2
+                    break
                 k += 1
                 if not loop_type:
                     # first iterate until r < r_bar
@@ -302,10 +306,6 @@ def find_lk(bmat, bterm, x_bar, q):
                 elif check_cnst(bmat, bterm, 4, 0, k, q) - x_bar > 0:
                     # then iterate until r > r_bar again
                     break
-                if k == k_max - 1:
-                    # set error flag 'no solution + k_max reached'
-                    flag = 2
-                    break
     else:
         l = 0
 
-- 
2.43.0


From b6dcd56cde956b7db7f65700c2d1098b8a201cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 29/37] fix: get_par returns copies of initial values and mode,
 and initial values also without prep_estim

---
 pydsge/mpile.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 466ca69..b981525 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -208,7 +208,7 @@ def get_par(
             elif dummy == "posterior_mean" or dummy == "post_mean":
                 par_cand = post_mean(self)
             elif dummy in ("mode", "mcmc_mode", "mode_mcmc", "posterior_mode", "post_mode"):
-                par_cand = self.fdict["mode_x"]
+                par_cand = np.array(self.fdict["mode_x"])
             elif dummy == "calib":
                 par_cand = self.par_fix[self.prior_arg].copy()
             elif dummy == "prior_mean":
@@ -237,10 +237,14 @@ def get_par(
                             par_cand.append(self.prior[pp][(-2)])
 
             elif dummy == "init":
-                par_cand = self.fdict["init_value"]
-                for i in range(self.ndim):
-                    if par_cand[i] is None:
-                        par_cand[i] = self.par_fix[self.prior_arg][i]
+                par_cand = self.fdict.get("init_value")
+                if par_cand is None:
+                    par_cand = get_prior(self.prior)[3]
+                # do not return the stored object itself
+                par_cand = [
+                    self.par_fix[arg] if val is None else val
+                    for val, arg in zip(par_cand, self.prior_arg)
+                ]
 
             else:
                 raise KeyError(
-- 
2.43.0


From a942ba81ceeb1580fb05467a974a6d43833cd40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:33 +0000
Subject: [PATCH 30/37] fix: extract, nhd, gfevd and prior_sampler leave the
 parameters of the model alone

---
 pydsge/filtering.py |  2 ++
 pydsge/mpile.py     |  2 ++
 pydsge/stats.py     |  3 +++
 pydsge/utils.py     | 30 ++++++++++++++++++++++++++++++
 4 files changed, 37 insertions(+)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 483d61d..5655ec0 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -9,6 +9,7 @@ from econsieve import KalmanFilter, TEnKF
 from grgrlib import timeprint
 from grgrlib.multiprocessing import serializer
 from econsieve.stats import logpdf
+from .utils import keeps_parameters
 
 
 def create_obs_cov(self, scale_obs=0.1):
@@ -307,6 +308,7 @@ def run_filter(
     return res
 
 
+@keeps_parameters
 def extract(
     self,
     sample=None,
diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index b981525..3f5b59d 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -11,6 +11,7 @@ import numpy as np
 from emcwrap import get_prior_sample, get_prior
 from grgrlib.multiprocessing import serializer
 from .stats import post_mean
+from .utils import keeps_parameters
 
 
 def posterior_sampler(self, nsamples, seed=0, verbose=True):
@@ -34,6 +35,7 @@ def posterior_sampler(self, nsamples, seed=0, verbose=True):
     return sample
 
 
+@keeps_parameters
 def prior_sampler(
     self,
     nsamples,
diff --git a/pydsge/stats.py b/pydsge/stats.py
index 3d1c8d2..3d78a5e 100644
--- a/pydsge/stats.py
+++ b/pydsge/stats.py
@@ -13,6 +13,7 @@ from scipy.special import gammaln
 from grgrlib import timeprint
 from grgrlib.stats import mode
 
+from .utils import keeps_parameters
 from emcwrap.dists import InvGammaDynare  # to maintain picklability
 
 
@@ -55,6 +56,7 @@ def pmdm_report(self, x_max, res_max, n=np.inf, printfunc=print):
     return
 
 
+@keeps_parameters
 def gfevd(
     self, eps_dict, horizon=1, nsamples=None, linear=False, seed=0, verbose=True, **args
 ):
@@ -150,6 +152,7 @@ def mbcs_index(self, vd, verbose=True):
     return mbs
 
 
+@keeps_parameters
 def nhd(self, eps_dict, linear=False, **args):
     """Calculates the normalized historic decomposition, based on normalized counterfactuals"""
 
diff --git a/pydsge/utils.py b/pydsge/utils.py
index e915609..1901bcf 100644
--- a/pydsge/utils.py
+++ b/pydsge/utils.py
@@ -1,5 +1,35 @@
+from functools import wraps
 from sympy import Equality
 
+# all that is attached to the model when parameters are set
+_system_attributes = (
+    "par", "ppar", "x_bar", "lks", "vv", "svv", "cvv", "dimx", "dimq", "dimp",
+    "dimy", "dimeps", "hx", "sys", "ff", "precalc_mat", "precalc_tmat",
+)
+
+
+def keeps_parameters(method):
+    """Put the current parameters and their system back in place after the call."""
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+
+        old = {a: self.__dict__[a] for a in _system_attributes if a in self.__dict__}
+        filter_Q = self.filter.Q if hasattr(self, "filter") else None
+
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            if "par" in old:
+                for a in _system_attributes:
+                    self.__dict__.pop(a, None)
+                self.__dict__.update(old)
+                if filter_Q is not None:
+                    self.filter.Q = filter_Q
+
+    return wrapper
+
+
 def _dumper(obj, name=None, eq:str="=", indent:int=4, currindent:int=0):
     """Recursively dump (print) an object in a somewhat structured but human-readable manner.
 
-- 
2.43.0


From eb5e0fb529bdc2474449b48ae599c03b0357f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:40 +0000
Subject: [PATCH 31/37] fix: get_par with 'best' combines the estimated
 parameters with the calibrated ones, as all parameter sets

---
 pydsge/mpile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 3f5b59d..8a500b3 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -181,6 +181,7 @@ def get_par(
                 print("[get_par:]".ljust(15, " ") + "%s = %s" % (dummy, p))
             return p
         if dummy == "best":
+            pars = self.par_fix
             try:
                 par_cand = get_par(
                     self, "mode", asdict=False, full=False, verbose=verbose, **args
-- 
2.43.0


From 53d686e9b0ed96823862ef17e1de58644354aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:20 +0000
Subject: [PATCH 32/37] fix: load models that were saved before data were
 loaded

DSGE.load raised KeyError for models without data.
---
 pydsge/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydsge/parser.py b/pydsge/parser.py
index 5952b23..231d064 100644
--- a/pydsge/parser.py
+++ b/pydsge/parser.py
@@ -626,7 +626,8 @@ class DSGE(Model):
         pmodel.fdict = fdict
         pmodel.name = str(fdict["name"])
         pmodel.path = os.path.dirname(npzfile)
-        pmodel.data = cpickle.loads(fdict["data"])
+        if "data" in fdict:
+            pmodel.data = cpickle.loads(fdict["data"])
         pmodel.fdict["model_dump"] = cpickle.dumps(pmodel, protocol=4)
 
         # pmodel.debug = platform == "darwin" or platform == "win32"
-- 
2.43.0


From b4a1ba025d8309747a0b4416ef43980af921b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 33/37] fix: use the named backend file also after the model
 was saved and loaded

---
 pydsge/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index ffcb411..0f45065 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -126,7 +126,7 @@ def mcmc(
             # backend_file will only be loaded later if explicitely defined before
             self.fdict["backend_file"] = backend
         try:
-            backend = self.fdict["backend_file"]
+            backend = str(self.fdict["backend_file"])
         except KeyError:
             # this is the default case
             suffix = str(suffix) if suffix else "_sampler.h5"
-- 
2.43.0


From a767ff06e2be159317280bebd35942ff9b67c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 34/37] fix: sampling leaves the model at its parameters, with
 and without worker processes

---
 pydsge/mcmc.py  | 2 ++
 pydsge/utils.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pydsge/mcmc.py b/pydsge/mcmc.py
index 0f45065..e9409ac 100644
--- a/pydsge/mcmc.py
+++ b/pydsge/mcmc.py
@@ -10,8 +10,10 @@ import emcwrap as ew
 from datetime import datetime
 from grgrlib.multiprocessing import serializer
 from .mpile import get_par
+from .utils import keeps_parameters
 
 
+@keeps_parameters
 def mcmc(
     self,
     p0=None,
diff --git a/pydsge/utils.py b/pydsge/utils.py
index 1901bcf..851b9d1 100644
--- a/pydsge/utils.py
+++ b/pydsge/utils.py
@@ -26,6 +26,8 @@ def keeps_parameters(method):
                 self.__dict__.update(old)
                 if filter_Q is not None:
                     self.filter.Q = filter_Q
+                elif hasattr(self, "filter"):
+                    self.filter.Q = self.QQ(self.ppar) @ self.QQ(self.ppar)
 
     return wrapper
 
-- 
2.43.0


From 87e38c7d5a39b91ea6a299792ae34d4a2ca44cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 35/37] fix: pass sampler arguments of get_par only to the
 sampler

On a model that was not solved before, get_par('prior', seed=...) and
get_par('posterior', seed=...) handed the seed to gen_sys, which does not
know it: the first call raised a TypeError, a second one worked.
---
 pydsge/mpile.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydsge/mpile.py b/pydsge/mpile.py
index 8a500b3..234624e 100644
--- a/pydsge/mpile.py
+++ b/pydsge/mpile.py
@@ -142,7 +142,11 @@ def get_par(
     from .gensys import gen_sys_from_yaml as gen_sys
 
     if not hasattr(self, "par"):
-        gen_sys(self, verbose=verbose, **args)
+        if isinstance(dummy, str) and dummy in ("prior", "post", "posterior"):
+            # the further arguments are those of the sampler
+            gen_sys(self, verbose=verbose)
+        else:
+            gen_sys(self, verbose=verbose, **args)
     pfnames, pffunc = self.parafunc
     pars_str = [str(p) for p in self.parameters]
     pars = np.array(self.par) if hasattr(
-- 
2.43.0


From 5397332c3be3c8859520176d3f3112d954be29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:15 +0000
Subject: [PATCH 36/37] fix: let the ensemble filter follow the number of
 states

The number of states can change with the parameters (a coefficient of a lag
that is zero); the filter kept the number it was created with and failed.
---
 pydsge/filtering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 5655ec0..4ab9997 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -215,6 +215,10 @@ def run_filter(
         self.filter.t_func = lambda *x: self.t_func(*x, get_obs=True)
         self.filter.o_func = None
 
+        # the number of states can depend on the parameters
+        self.filter.dim_x = self.dimq - self.neps
+        self.filter.x = np.zeros(self.filter.dim_x)
+
         if self.filter.init_cov is None:
             qmat = self.precalc_mat[1]
             F = qmat[1, 0][: -self.neps, : -self.neps]
-- 
2.43.0


From e8b5fed3e35a6743b3ed953a789a0b2513d66652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:43 +0000
Subject: [PATCH 37/37] fix: run_filter leaves the filter's shock covariance as
 it is

With as many states as shocks the transformed covariance was taken for the
covariance of the shocks by the next run, and results changed with each call.
---
 pydsge/filtering.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pydsge/filtering.py b/pydsge/filtering.py
index 4ab9997..a82ead3 100644
--- a/pydsge/filtering.py
+++ b/pydsge/filtering.py
@@ -182,18 +182,20 @@ def run_filter(
         self.filter.F = F
         self.filter.H = np.hstack((self.hx[0], self.hx[1])), self.hx[2]
 
-        if self.filter.Q.shape[0] == self.neps:
+        # the filter's Q stays the covariance of the shocks
+        Q = self.filter.Q
+        if Q.shape[0] == self.neps:
             E = np.vstack(
                 (pmat[1, 0][:, -self.neps:], qmat[1, 0]
                  [: -self.neps, -self.neps:])
             )
-            self.filter.Q = E @ self.filter.Q @ E.T
+            Q = E @ Q @ E.T
 
         if self.filter.init_cov is None:
             p4 = sl.solve_discrete_lyapunov(
-                F[dimp:, dimp:], self.filter.Q[dimp:, dimp:]
+                F[dimp:, dimp:], Q[dimp:, dimp:]
             )
-            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + self.filter.Q
+            self.filter.P = F[:, dimp:] @ p4 @ F.T[dimp:] + Q
         else:
             self.filter.P = self.filter.init_cov
 
@@ -243,11 +245,12 @@ def run_filter(
 
     if self.filter.name == "KalmanFilter":
 
-        means, covs, ll = self.filter.batch_filter(self.Z)
+        Qs = [Q] * len(self.Z)
+        means, covs, ll = self.filter.batch_filter(self.Z, Qs=Qs)
 
         if smoother:
             means, covs, _, _ = self.filter.rts_smoother(
-                means, covs, inv=lambda x: np.linalg.pinv(x, rcond=rcond)
+                means, covs, Qs=Qs, inv=lambda x: np.linalg.pinv(x, rcond=rcond)
             )
 
         if get_ll:
-- 
2.43.0

