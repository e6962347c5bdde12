From 197501313b91c05366a12c02262df49f317b4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 01/39] fix: reset the slack-variable state at the start of
 every call

---
 sqpdfo/sqpdfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cba39ab..c4c415c 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -129,6 +129,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
 
     # Handling of inequalities as slack variables
 
+    # forget the slack variables of a previous call
+    glob.set_nbr_slacks(0)
+    glob.set_slacks(None)
+
     if mi:
 
         if li is None:
-- 
2.43.0


From 7eda88c17aa4b7bad248f87852cc40fc14bcdc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 02/39] fix: pass scalar coefficients to poly1d in the
 pseudo-hard case of the trust-region solver

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 253435a..a1aef68 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -303,7 +303,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         nscri=0
         
     if (nscri <= Delta):
-        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * V[:,imu].reshape(1,-1).dot( scri),nscri ** 2 - Delta ** 2])
+        p2=numpy.poly1d([norm_(V[:,imu]) ** 2,2 * float(V[:,imu].reshape(1,-1).dot( scri)),float(nscri ** 2 - Delta ** 2)])
         root=max(p2.r)
         s=scri + root * V[:,imu].reshape(-1,1)
     else:
-- 
2.43.0


From c6daa322bc4f8f1be26be82f1898102599fe75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 03/39] fix: define the constraint gradients before the first
 model update of the main loop

---
 sqpdfo/sqpdfo_main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 9393d60..4e43482 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -186,12 +186,14 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
     
     if mi > 0:
         ciY=copy(ciX[:,ind_Y])
+        gci=copy(info.ai)
     else:
         ciY=array([])
         gci=array([])
         
     if me > 0:
         ceY=copy(ceX[:,ind_Y])
+        gce=copy(info.ae)
     else:
         ceY=array([])
         gce=array([])
-- 
2.43.0


From 6a6a65f865cc19618889aee7b2789b429d03147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 04/39] fix: return the function and constraint values of the
 returned point

---
 sqpdfo/sqpdfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index c4c415c..8119bac 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -345,6 +345,8 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         x=x / scalefacX
     info_best=copy(info)
     info_best.f=fx
+    if me > 0:
+        info_best.ce=ceX[:,[i_xbest]]
     x=X[:,i_xbest]
     sqpdfo_finish_(nb,mi,me,info_best,options,values)
 
@@ -378,4 +380,4 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
                 fprintf_(options.fout,'.....\n')
             else:
                 fprintf_(options.fout,'\n')
-    return x,lm,info
+    return x,lm,info_best
-- 
2.43.0


From 252a48dd18a4bfb269a69d6a2168c5ede972d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 05/39] fix: stop when an evaluation fails while the
 interpolation set is being improved

---
 sqpdfo/sqpdfo_main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 4e43482..240b0f6 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -512,6 +512,12 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                    indfix,indfree,fxmax,neval,xstatus,c.inY,\
                                    sstatus,dstatus,scaleX,scalefacX,info,\
                                    options,values,nargout=10)
+
+                if info.flag:
+
+                    return nit,i_xbest,x,fx,m,X,fX,ciX,ceX,ind_Y,delta,eps_current,\
+                    cur_degree,fcmodel,gx,normgx,vstatus,xstatus,sstatus,dstatus,M,\
+                    ndummyY,sspace_save,xspace_save,msg,CNTsin,neval,lm,info
                                    
                 fY[j]=fX[m]
                 
-- 
2.43.0


From 38db7a02ec9fea97635e4ceeb2ac37ddd176e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 06/39] fix: make the BFGS restart option usable and give it a
 default

---
 sqpdfo/sqpdfo_computeHessian.py | 2 +-
 sqpdfo/sqpdfo_options.py        | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_computeHessian.py b/sqpdfo/sqpdfo_computeHessian.py
index 196a45e..821d1a1 100644
--- a/sqpdfo/sqpdfo_computeHessian.py
+++ b/sqpdfo/sqpdfo_computeHessian.py
@@ -56,7 +56,7 @@ def sqpdfo_computeHessian_(simul=None,x=None,null_step=None,constrained_pbl=None
             # compute the BFGS approximation of the Hessian of the Lagrangian 
             # (with Powell corrections)
             if options.bfgs_restart > 0 \
-            and mod_(info.nsimul[1],options.bfgs_restart) == 0:
+            and info.nsimul[1] % options.bfgs_restart == 0:
                 szM = size_(M)
                 M=eye_(szM[0])
                 pc=2.0
diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index 15f7730..faeeec0 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -144,6 +144,9 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     else:
         options.hess_approx = values.model  # default value
 
+    if not isfield_(options, 'bfgs_restart'):
+        options.bfgs_restart = 0  # default value: no restart
+
     if isfield_(options, 'whichmodel'):
         if 'subbasis' == options.whichmodel.lower().replace(" ", ""):
             options.whichmodel = values.subbasis
-- 
2.43.0


From f769f6616198cd4c18c7a7f88229b2e351049034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 07/39] fix: let the second interpolation point become the best
 point

---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 86e0dc4..18ffc85 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -116,7 +116,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
     #  Exchange best point only if the new smallest fmin is strictly smaller than fx
     #  (to avoid a change of the center of the interpolation at equal function values)
 
-    if (imin != 1 and fmin < meritY[0]):
+    if (imin != 0 and fmin < meritY[0]):
     
         QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,scale=\
         sqpdfo_swap_in_Y_(0,imin,QZ,RZ,Y,ind_Y,fY,ciY,ceY,x,whichmodel,\
-- 
2.43.0


From 596331ac61b02873da8981f1040215dfbd477a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 08/39] fix: use the full penalty parameter when comparing
 interpolation points

---
 sqpdfo/sqpdfo_find_smallf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index 18ffc85..ee6a511 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -107,7 +107,7 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
             for i in range(0,cur_degree):
                 norm_ceY[i]=norm_(ceY[:,i])
 
-    meritY=fY + int(sigma) * norm_ceY
+    meritY=fY + float(sigma) * norm_ceY
     
     #  Find the smallest function value among them
 
-- 
2.43.0


From 2f24f3fb8f31e6f1ae921aa73cf63bb4b19f31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 09/39] fix: do not treat a step leading away from a bound as
 blocked by it

---
 sqpdfo/bcdfo_solve_TR_MS_bc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS_bc.py b/sqpdfo/bcdfo_solve_TR_MS_bc.py
index aefd151..81728b5 100644
--- a/sqpdfo/bcdfo_solve_TR_MS_bc.py
+++ b/sqpdfo/bcdfo_solve_TR_MS_bc.py
@@ -144,8 +144,11 @@ def bcdfo_solve_TR_MS_bc_(g=None,H=None,lb=None,ub=None,Delta=None,eps_D=None,st
             gplus[ind_free]=gplus[ind_free] + gplus_red
             s_after_reduced_ms=s + I[:,ind_free] .dot( s_deltaMS )
       #  Compute critical components which became active during the last MS iteration
-            ind_u_crit=find_(logical_and(ub[ind_free] - s_after_reduced_ms[ind_free] <= eps_bound, ub[ind_free] <= 1e-10))
-            ind_l_crit=find_(logical_and(s_after_reduced_ms[ind_free] - lb[ind_free] <= eps_bound, lb[ind_free] >= -1e-10))
+            s_free=s_after_reduced_ms[ind_free]
+            u_near=logical_and(ub[ind_free] - s_free <= eps_bound, s_free >= np.minimum(ub[ind_free],0))
+            l_near=logical_and(s_free - lb[ind_free] <= eps_bound, s_free <= np.maximum(lb[ind_free],0))
+            ind_u_crit=find_(logical_and(u_near, ub[ind_free] <= 1e-10))
+            ind_l_crit=find_(logical_and(l_near, lb[ind_free] >= -1e-10))
       #  Fix these new active components
 
             if (length_(ind_u_crit) + length_(ind_l_crit) != 0):
-- 
2.43.0


From 90c4c32bf65f75ba6eaf1836b420416eda0f1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 10/39] fix: record the constraint values of a trial point even
 when all values so far are zero

---
 sqpdfo/sqpdfo_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 240b0f6..7721a5a 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -794,7 +794,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
         
             fxplus=copy(fX[m])
             
-            if ceX.any():
+            if me > 0:
                 ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
                 ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
                 ceplus = copy(array([ceX[:,m]]).T)
-- 
2.43.0


From 1cda6d02c135f448fc14f900884ac3fa40482dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 11/39] fix: accept constraint values that are infinite
 everywhere

---
 sqpdfo/sqpdfo_main.py   | 5 +++--
 sqpdfo/sqpdfo_prelim.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 7721a5a..abe3405 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -795,8 +795,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             fxplus=copy(fX[m])
             
             if me > 0:
-                ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
-                ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+                if (abs(ceX) < 1e25).any():
+                    ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
+                    ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 276812c..25be923 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -379,8 +379,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             
         # Check for infinity constraint values
         
-        ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
-        ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
+        if (abs(ceX) < 1e25).any():
+            ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
+            ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
                     
         fY=copy(fX)
         ciY=copy(ciX)
-- 
2.43.0


From e554c12c8da80894959d93b9937256fe74835945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 12/39] fix: accept starting points and bounds in every vector
 format and integer type

---
 sqpdfo/sqpdfo.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 8119bac..cff00a5 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -107,16 +107,15 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if x0 is None:
         print('Error: No starting values of x given !')
         return x, lm, info
-    elif not isinstance(x0, np.ndarray):
-        x0 = array([x0])
+    x0 = np.array(x0, dtype=float, ndmin=2)
     if lb is None:
-        lb = -1e20 * np.ones_like(x0).T
-    elif not isinstance(lb, np.ndarray):
-        lb = array([lb]).T
+        lb = -1e20 * np.ones((x0.size, 1))
+    else:
+        lb = np.array(lb, dtype=float).reshape(-1, 1)
     if ub is None:
-        ub = 1e20 * np.ones_like(x0).T
-    elif not isinstance(ub, np.ndarray):
-        ub = array([ub]).T
+        ub = 1e20 * np.ones((x0.size, 1))
+    else:
+        ub = np.array(ub, dtype=float).reshape(-1, 1)
 
 	# check existence of options
 
-- 
2.43.0


From dbb3681322ccd0b8406181785583616ed788621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 13/39] fix: run problems without any finite bound or
 constraint at every verbosity

---
 sqpdfo/sqpdfo_prelim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 25be923..32a178d 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -548,14 +548,14 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             fprintf_(options.fout,'  . gradient of the Lagrangian      %8.2e\n'%(options.tol_grad))
             fprintf_(options.fout,'  . feasibility                     %8.2e\n'%(options.tol_feas))
         else:
-            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol[0]))
+            fprintf_(options.fout,'  . gradient of the cost function   %8.2e\n'%(options.tol_grad))
         fprintf_(options.fout,'  counters:\n')
         fprintf_(options.fout,'  . max iterations                  %4i\n'%(options.miter))
         fprintf_(options.fout,'  . max function evaluations        %4i\n'%(options.msimul))
         fprintf_(options.fout,'  algorithm:\n')
         fprintf_(options.fout,'  . globalization by trust regions\n')
         fprintf_(options.fout,'  various input/initial values:\n')
-        if  (nb + mi + me == 0) and (options.df1 > 0) and (info.f > 0):
+        if  (nb + mi + me == 0) and hasattr(options,'df1') and (options.df1 > 0) and (info.f > 0):
             fprintf_(options.fout,'  . expected initial decrease       %8.2e\n'%(options.df1 * info.f))
         if nb + mi > 0:
             fprintf_(options.fout,'  . infinite bound threshold        %8.2e\n'%(options.inf))
@@ -581,6 +581,8 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
             lm=copy(lm0)
             if options.verbose >= 4:
                 fprintf_(options.fout,'  . |lm|_2                          %8.2e\n'%(norm_(lm)))
+    else:
+        lm=zeros_(n,1)
 
     # Initial optimality
 
-- 
2.43.0


From d5270c0c71427202a72be1ce1ab7ec1b4045828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 14/39] fix: keep the poisedness printed at high verbosity out
 of the stopping test

---
 sqpdfo/sqpdfo_main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index abe3405..6ec57aa 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -480,11 +480,11 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                           ', Y_radius = ',str(Y_radius))
                     
             if (options.verbose >= 4):
-                poised,Y_radius=\
+                poised_shown,Y_radius_shown=\
                 bcdfo_poisedness_Y_(QZ,RZ,Y,eps_L,x,lSolver,whichmodel,\
                 hardcons,lb,ub,indfree,stratLam,scale,shift_Y,nargout=2)
                 
-                disp_(' poisedness(Y) = ',str(poised))
+                disp_(' poisedness(Y) = ',str(poised_shown))
                 
             poised_model=1
 
-- 
2.43.0


From a571cb1cf25b97aa3b391e71bb8d845e444b537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 15/39] fix: refuse bounds that are too short and NaN in
 starting point or bounds

---
 sqpdfo/sqpdfo.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index cff00a5..d9e5536 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -117,6 +117,13 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     else:
         ub = np.array(ub, dtype=float).reshape(-1, 1)
 
+    if lb.size < x0.size or ub.size < x0.size:
+        print('Error: The bounds have fewer components than the starting point !')
+        return x, lm, info
+    if np.isnan(x0).any() or np.isnan(lb).any() or np.isnan(ub).any():
+        print('Error: The starting point or the bounds contain NaN !')
+        return x, lm, info
+
 	# check existence of options
 
     if options_ is None:
-- 
2.43.0


From 0526209fd759524ff500d7006d27e02e24ee5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 16/39] fix: optimize over the free variables when some bounds
 are equal

---
 sqpdfo/sqpdfo.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index d9e5536..ab91db0 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -133,6 +133,28 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     else:
         options = copy(options_)
 
+    # Variables with equal bounds are fixed: optimize over the free variables only
+
+    n = x0.size
+    free = np.flatnonzero(lb[:n] != ub[:n])
+    if 0 < len(free) < n:
+
+        def full(y):
+            xfull = lb[:n, 0].copy()
+            xfull[free] = y
+            return xfull
+
+        x, lm, info = sqpdfo_(options, lambda y: func_f(list(full(y))),
+                              x0.reshape(-1)[free], lb[:n][free], ub[:n][free], me, mi,
+                              None if func_c is None else lambda y: func_c(list(full(y))), li, ui)
+        if np.ndim(x) and np.size(x) == len(free):
+            x = full(np.reshape(x, -1)).reshape((n,) + np.shape(x)[1:])
+        if len(lm):
+            lmfree = lm
+            lm = np.zeros((n + len(lmfree) - len(free),) + lmfree.shape[1:])
+            lm[np.concatenate((free, np.arange(n, len(lm))))] = lmfree
+        return x, lm, info
+
     # Handling of inequalities as slack variables
 
     # forget the slack variables of a previous call
-- 
2.43.0


From bebed318e0ab39a8d09666c0febf7c651b874156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 17/39] fix: evaluate the constraints at the same point as the
 objective even if the latter alters its argument

---
 sqpdfo/sqpdfo_func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index 3868830..cb2e646 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,7 +29,7 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(xc)
+        f = ffunc(copy(xc))
     except:
         f = np.inf
         msgf = 1
-- 
2.43.0


From e73b316a523deb128d5f056b7d0cd5128cda6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 18/39] fix: treat unusable return values of the user functions
 as failed evaluations

---
 sqpdfo/sqpdfo_augmX_evalf.py | 7 +++++++
 sqpdfo/sqpdfo_func.py        | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index d802a1e..57d49d6 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -159,6 +159,13 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
         
         return X,fX,ciX,ceX,neval,xstatus,sstatus,dstatus,info,msg
         
+    if m > 0 and (0 if isempty_(ce) else size_(ce,1)) != (0 if isempty_(ceX) else size_(ceX,1)):
+        if options.verbose:
+            fprintf_(options.fout,'### sqpdfo_augmX_evalf: the number of constraint values has changed\n\n')
+        info.flag=values.fail_on_simul
+        
+        return X,fX,ciX,ceX,neval,xstatus,sstatus,dstatus,info,msg
+        
     #  Augment fX, ciX, and ceX with new function and constraint value
 
     try:
diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index cb2e646..cc924c2 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -29,7 +29,8 @@ def sqpdfo_func_(x=None,*args,**kwargs):
     xc = copy(x.T)
     xc = list(xc[0])
     try:
-        f = ffunc(copy(xc))
+        f = array(ffunc(copy(xc))).item()
+        np.isnan(f)  # raises if f is not a number
     except:
         f = np.inf
         msgf = 1
@@ -37,7 +38,9 @@ def sqpdfo_func_(x=None,*args,**kwargs):
         try:
             c = cfunc(xc)
             c = array(c).reshape(-1, 1)
+            np.isnan(c)  # raises if c contains anything else than numbers
         except:
+            c = array([])
             msgc = 1
     if msgf > 0 or msgc > 0:
         msg = 'Error: error during calculating f (and/or c) in '
-- 
2.43.0


From 3109dcae517e308211e1dfb12f4dc9976a97c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 19/39] fix: accept every callable as user function and refuse
 anything else without ending the process

---
 sqpdfo/sqpdfo.py                  | 5 +++++
 sqpdfo/sqpdfo_global_variables.py | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index ab91db0..15bf03e 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -89,6 +89,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if mi is None:
         mi = 0
 
+    for func in (func_f, func_c):
+        if func is not None and not callable(func):
+            print('Error: The objective and the constraints must be callable !')
+            return x, lm, info
+
     if func_f == None:
         print('Error: Definition of the objective function (in func_f()) is missing !')
         return x, lm, info
diff --git a/sqpdfo/sqpdfo_global_variables.py b/sqpdfo/sqpdfo_global_variables.py
index 51e44fc..39d0069 100644
--- a/sqpdfo/sqpdfo_global_variables.py
+++ b/sqpdfo/sqpdfo_global_variables.py
@@ -82,14 +82,14 @@ def set_filename_f(value):
     global filename_f
     if value is None:
         sys.exit('Error: Definition of the objective function in func() is missing !')
-    elif isinstance(value, types.FunctionType):
+    elif callable(value):
         filename_f = value
     else:
         sys.exit('Error: function handle for the objective is not of type function !')
 
 def set_filename_cons(value):
     global filename_cons
-    if isinstance(value, types.FunctionType):
+    if callable(value):
         filename_cons = value
     elif value is '' or value is None:
         filename_cons = ''
-- 
2.43.0


From 25f4f3cd6534a8a93977d569e52ee4822e455efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 20/39] fix: make the minimum Frobenius norm models and
 Lagrange polynomials computable between linear and quadratic size

---
 sqpdfo/bcdfo_computeLj.py |  9 +++++----
 sqpdfo/bcdfo_computeP.py  | 10 ++++------
 sqpdfo/bcdfo_evalL.py     | 11 ++++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/sqpdfo/bcdfo_computeLj.py b/sqpdfo/bcdfo_computeLj.py
index 1ed35fc..5ae655e 100644
--- a/sqpdfo/bcdfo_computeLj.py
+++ b/sqpdfo/bcdfo_computeLj.py
@@ -66,7 +66,7 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
 #       build linear/quadratic Lagrange polynomials 
            Lj=(numpy.linalg.solve(RZ,QZ.T).dot(concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 - j,1)],axis=0))).T
            if (p1 == n + 1):
-                Lj[n + 1:q]=0
+                Lj=concatenate_([Lj,zeros_(1,q - p1)],axis=1)
         else:
 #       build Minimum Frobenius-norm Lagrange polynomials (p1 <= q)
 #
@@ -81,12 +81,13 @@ def bcdfo_computeLj_(QZ=None,RZ=None,j=None,Y_=None,whichmodel=None,scale=None,s
                 Y=Y / scaleY
 #       compute the right-hand side of the system
             rhs=concatenate_([zeros_(j - 1,1),numpy.array([[1]]),zeros_(p1 + n +1 - j,1)],axis=0)
-            mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs)))).T
+            mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs))).reshape(-1)
+            Lj=zeros_(1,q)
 #       constant and linear part of P
-            Lj[0:n + 1]=mualpha[p1:p1 + n + 1].T
+            Lj[0,0:n + 1]=mualpha[p1:p1 + n + 1]
 #       quadratic part of P
             M=bcdfo_evalZ_(Y,q).T
-            Lj[n + 1:q]=M[:,n + 1:q].T.dot( mualpha[0:p1]).T
+            Lj[0,n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1])
     elif (whichmodel == 2):
 #    build Minimum L2 norm Lagrange polynomials (p1 <= q)
 #    (QZ and RZ are the factors of Z = M')
diff --git a/sqpdfo/bcdfo_computeP.py b/sqpdfo/bcdfo_computeP.py
index 716d14e..e6f9500 100644
--- a/sqpdfo/bcdfo_computeP.py
+++ b/sqpdfo/bcdfo_computeP.py
@@ -96,16 +96,14 @@ def bcdfo_computeP_(QZ=None,RZ=None,Y_=None,fY=None,whichmodel=None,P_old=None,i
                 Y=Y / scaleY
 #       compute right-hand side with function values and zero
 
-            P=array([])
             for i in range(0,n_rhs):
-                rhs=concatenate_([fY[i,:],zeros_(1,n + 1)], axis=1)
-                mualpha=(numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T)))).T
+                rhs=concatenate_([fY[i,:].reshape(1,-1),zeros_(1,n + 1)], axis=1)
+                mualpha=numpy.linalg.solve(RZ,(QZ.T.dot(rhs.T))).reshape(-1)
 #                 constant and linear part of P
-                P_i[0:n + 1]=mualpha[p1:p1 + n + 1].T
+                P[i,0:n + 1]=mualpha[p1:p1 + n + 1]
 #                 quadratic part of P
                 M=bcdfo_evalZ_(Y,q).T
-                P_i[n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1].T)
-                P=concatenate_([P, P_i])
+                P[i,n + 1:q]=M[:,n + 1:q].T.dot(mualpha[0:p1])
     elif (whichmodel == 2):
         P=(QZ.dot((numpy.linalg.solve(RZ.T,fY.T)))).T
     elif (whichmodel == 3):
diff --git a/sqpdfo/bcdfo_evalL.py b/sqpdfo/bcdfo_evalL.py
index 9bcad8a..a832e29 100644
--- a/sqpdfo/bcdfo_evalL.py
+++ b/sqpdfo/bcdfo_evalL.py
@@ -2,6 +2,7 @@
 
 from sqpdfo.runtime import *
 from sqpdfo.bcdfo_evalP import bcdfo_evalP_
+from sqpdfo.bcdfo_evalZ import bcdfo_evalZ_
 import numpy
 from copy import copy
     
@@ -55,7 +56,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
     n,p1=size_(Y,nargout=2)
     I=eye_(p1)
     lc=length_(choice_set)
-    q=((n + 1) * (n + 2)) / 2
+    q=int(((n + 1) * (n + 2)) / 2)
     values=zeros_(p1,1)
     if (whichmodel == 3 and p1 < q):
 #     for underdetermined regression model use min l2-norm model
@@ -67,17 +68,17 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
         if (p1 == n + 1 or p1 == q):
 #        evaluate Minimum L2 norm Lagrange polynomial (p1 == n+1 or p1 == q)
 
-            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (QZ / RZ.T)),x,xbase,scale,shift_Y)
+            values[choice_set]=bcdfo_evalP_(I[choice_set,:] .dot( (numpy.linalg.solve(RZ,QZ.T).T)),x,xbase,scale,shift_Y)
         else:
 #       evaluate Minimum Frobenius norm Lagrange polynomial (p1 <= q)
 #
 #        If shifting is active, the matrix of the interpoaltion points is first
 #        shifted and scaled (to compute M correctly).
             if (shift_Y):
-                xbase=copy(Y[:,0])
+                xbase=copy(Y[:,0]).reshape(-1,1)
                 scaleY=0
                 for i in range(0,p1):
-                    Y[:,i]=Y[:,i] - xbase
+                    Y[:,i]=Y[:,i] - xbase.reshape(-1)
                     scaleY=max_(scaleY,norm_(Y[:,i]))
                 Y=Y / scaleY
             M=bcdfo_evalZ_(Y,q).T
@@ -86,7 +87,7 @@ def bcdfo_evalL_(QZ=None,RZ=None,Y_=None,choice_set=None,x=None,xbase=None,which
                 phi=bcdfo_evalZ_((x - xbase) * scale[1],q)
             else:
                 phi=bcdfo_evalZ_(x,q)
-            values[choice_set]=concatenate_([  I[choice_set,:],  zeros_(lc,n + 1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]]))))],axis=1)
+            values[choice_set]=concatenate_([I[choice_set,:],zeros_(lc,n + 1)],axis=1).dot(QZ .dot(numpy.linalg.solve(RZ.T,concatenate_([MQ.dot(phi[n + 1:q]),phi[0:n + 1]],axis=0))))
     elif (whichmodel == 2):
 #    evaluate Minimum L2 norm Lagrange polynomial (p1 <= q)
         if (p1 < q):
-- 
2.43.0


From 60d5933b30335c71a91117d0b899ba580f7664ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 21/39] fix: use orthonormal eigenvectors in the hard case of
 the trust-region solver

---
 sqpdfo/bcdfo_solve_TR_MS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index a1aef68..7640ccf 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -275,7 +275,8 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
 
     #  Find eigen decomposition and the minimal eigenvalue.
     
-    V,D=eig_(H,nargout=2)
+    D,V=numpy.linalg.eigh(H)
+    D=numpy.diag(D)
     V = numpy.real(V)
     D = numpy.real(D)
     neigd=neigd + 1
-- 
2.43.0


From ecb54e1b2bcdf64666d486c6449cfd05c492a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 22/39] fix: follow negative curvature when the gradient
 vanishes in the trust-region solver

---
 sqpdfo/bcdfo_solve_TR_MS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS.py b/sqpdfo/bcdfo_solve_TR_MS.py
index 7640ccf..8586001 100644
--- a/sqpdfo/bcdfo_solve_TR_MS.py
+++ b/sqpdfo/bcdfo_solve_TR_MS.py
@@ -140,7 +140,7 @@ def bcdfo_solve_TR_MS_(g=None,H=None,Delta=None,eps_D=None,*args,**kwargs):
         
     #  Zero gradient
         
-    if (gnorm ** 2 < epsilon):
+    if (gnorm ** 2 < epsilon and numpy.min(numpy.linalg.eigvalsh(H)) >= - epsilon * Hnorminf):
         msg='zero gradient'
         
         if (verbose):
-- 
2.43.0


From d8cabf3229fcb6614950f933077d2f04248c2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:29 +0000
Subject: [PATCH 23/39] fix: report the value of the zero step returned when
 the bound-constrained trust-region solver gives up

---
 sqpdfo/bcdfo_solve_TR_MS_bc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqpdfo/bcdfo_solve_TR_MS_bc.py b/sqpdfo/bcdfo_solve_TR_MS_bc.py
index 81728b5..778425a 100644
--- a/sqpdfo/bcdfo_solve_TR_MS_bc.py
+++ b/sqpdfo/bcdfo_solve_TR_MS_bc.py
@@ -411,6 +411,7 @@ def bcdfo_solve_TR_MS_bc_(g=None,H=None,lb=None,ub=None,Delta=None,eps_D=None,st
 
                     s[0:n]=0.0
                     norms=0
+                    value=0
                     msg='limit in bc-MS exceeded'
                     if (verbose):
                         disp_('Error in bcdfo_solve_TR_MS_bc: iteration limit in bc-MS exceeded!')
-- 
2.43.0


From 445ab6abf5162d83f4dd5e0f6abea13820e1a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 24/39] fix: add the newly active bounds to the active set of
 the bounded least-squares solver

---
 sqpdfo/blls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index 078046d..e5026be 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -343,8 +343,8 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
                        # the current active set.
                         natlb=free[find_(abs(ssub[free] - lb[free]) <= epsfeas)].reshape(-1)
                         natub=free[find_(abs(ssub[free] - ub[free]) <= epsfeas)].reshape(-1)
-                        atlb=append(atlb,natlbt)
-                        atub=append(atub,natubt)
+                        atlb=append(atlb,natlb)
+                        atub=append(atub,natub)
                         atb=append(atlb,atub)
                         free=copy(inds)
                         free = np.delete(free, atb)
-- 
2.43.0


From 94150d2d97bce50c124bf6c2c3ba5f95cdd27f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 25/39] fix: do not take a Cauchy point without free variables
 for the solution of the bounded least-squares problem

---
 sqpdfo/blls.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/blls.py b/sqpdfo/blls.py
index e5026be..3f14031 100644
--- a/sqpdfo/blls.py
+++ b/sqpdfo/blls.py
@@ -193,13 +193,13 @@ def blls_(A=None,b=None,lb=None,ub=None,*args,**kwargs):
    ##########################################################################
    #       Beyond the Cauchy point: nested subspace minimization            #
    ##########################################################################
-   # The Cauchy point is optimal for the problem because either there is no 
-   # free variable left (which implies opt = 0) or because the residual is 
-   # zero: terminate as s is the problem's solution.
+   # No nested subspace search if there is no free variable left at the 
+   # Cauchy point or if the residual is zero: only the optimality measure 
+   # at the Cauchy point is needed.
         if (lfree == 0 or resn <= epsres):
             if (verbose > 1):
                 fprintf_('   No nested subspace search\n')
-            opt=0  #  Forces termination
+            opt=norm_(min_(max_(s - A.T.dot(res),lb),ub) - s)
       # There are free variables at the Cauchy point: start a nested 
       # subspace search.
         else: # ( lfree > 0 && resn > epsres )
-- 
2.43.0


From 6f0d86e48d0beae09aa4fa331a7d4c341a7db919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 26/39] fix: count degrees of freedom of the tangent step from
 the null space (dependent active rows)

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 9dbf7d1..0d7d6b9 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -302,13 +302,17 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             fprintf_(options.fout,'  Tangent step:\n')
             
         delta_t=copy(delta)
-        deg_freedom=n - length_(constraints) + nbr_slacks
+
+        # compute nullspace of the Jacobian (its rows may be dependent, e.g. if
+        # the gradient of a constraint is parallel to an active bound)
+
+        Z_=null_(gconstraints,1e-14)
+        deg_freedom=size_(Z_,2)
         
         if deg_freedom > 0:
         
-            # compute nullspace of the Jacobian and project M and g
+            # project M and g
 
-            Z_=null_(gconstraints)
             M_t=Z_.T.dot(M.dot( Z_))
             g_t=Z_.T.dot((glocal + M.dot(r_sl)))
          
-- 
2.43.0


From 7cdeda681930f3a0e523b61151bf93c31326022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 27/39] fix: a bound parallel to the tangent step no longer
 shortens it to zero

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 0d7d6b9..f439b91 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -545,13 +545,10 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
                 alpha=concatenate_([ub[0:n],- lb[0:n]])
                         
             divisor=aT.dot(tstep)
-            indices1 = find_(divisor < 1e-15)
-            indices2 = find_(divisor > -1e-15)
-            iii = [i in indices2 for i in indices1]
-            indices = indices1[iii]
-            divisor[indices] = 1e-15
-            ratio=(alpha - aTx) / divisor
-            minratio=min_(ratio[divisor > 0])
+            # (bounds which the step does not approach do not limit it)
+            moving=divisor > 1e-15
+            ratio=(alpha - aTx)[moving] / divisor[moving]
+            minratio=min_(ratio)
             
             if (minratio < 0):
                 # in case xk is slightly in the infeasible region, this should not
-- 
2.43.0


From 216641361534d9d613eb978ecc6abd0746256c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 28/39] fix: the tangent steps of the active-set loop left the
 linearised constraints (Jacobian updated with the Hessian of the Lagrangian)

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index f439b91..5a031b8 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -575,13 +575,11 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
                 disp_('delta_t = ',str(delta_t),', norm_t = ',str(norm_(tstep[0:n])))
                 disp_('delta ',str(delta),', norm_s = ',str(norm_(r + tstep[0:n])))
                 
-            # update gradient and Jacobian 
+            # update gradient (the Jacobian of the linearised constraints
+            # does not change along the step)
 
             glocal=glocal + M .dot(step)
             
-            for i in range(0,me):
-                gconstraints[i,:]=gconstraints[[i],:] + (M .dot( step)).T
-                
             delta=delta - 0.5*norm_(step[0:n])
 
     return xnew,delta,rpred,active_r,active_t,lm_computed,lm,info,slnew
-- 
2.43.0


From cf6107cc96564561fe213087ee925891518e246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 29/39] fix: a bound on a variable the constraints already fix
 is no further restriction on the tangent step

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 5a031b8..239538a 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -127,20 +127,24 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
                 if options.verbose >= 3:
                     disp_('lb ',str(i),' is initially active')
                     
-                # append active bound to the equality constraints
+                # append active bound to the equality constraints (unless the
+                # constraints already fix the variable)
 
-                constraints=concatenate_([constraints,array([[0]])])
-                gconstraints=concatenate_([gconstraints,I[[i],:]])
+                if norm_(null_(gconstraints,1e-14)[[i],:]) > 1e-8:
+                    constraints=concatenate_([constraints,array([[0]])])
+                    gconstraints=concatenate_([gconstraints,I[[i],:]])
                 
             if (x[i] - gradlag[i] >= ub[i]) and (abs(x[i] - ub[i]) < 1e-05):
                 x_active[i]=1
                 if options.verbose >= 3:
                     disp_('ub ',str(i),' is initially active')
                     
-                # append active bound to the equality constraints
+                # append active bound to the equality constraints (unless the
+                # constraints already fix the variable)
 
-                constraints=concatenate_([constraints,array([[0]])])
-                gconstraints=concatenate_([gconstraints,I[[i],:]])
+                if norm_(null_(gconstraints,1e-14)[[i],:]) > 1e-8:
+                    constraints=concatenate_([constraints,array([[0]])])
+                    gconstraints=concatenate_([gconstraints,I[[i],:]])
                 
         if options.verbose >= 3 and sum_(x_active) > 0:
             print("xactive="+str(x_active.T))
-- 
2.43.0


From 4b79cbaa309b590afe28077b4bd3234f2a2c2752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 30/39] fix: slack variables moved twice when a tangent step
 was shortened at a bound

---
 sqpdfo/sqpdfo_solve_TR_bc.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/sqpdfo/sqpdfo_solve_TR_bc.py b/sqpdfo/sqpdfo_solve_TR_bc.py
index 239538a..5c88cc8 100644
--- a/sqpdfo/sqpdfo_solve_TR_bc.py
+++ b/sqpdfo/sqpdfo_solve_TR_bc.py
@@ -365,10 +365,7 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             r_slsl = r_sl[n:n+nbr_slacks]
             t_slsl = t_sl[n:n+nbr_slacks]
             
-            if iter_active == 1:
-                slnew = sl + r_slsl + t_slsl
-            else:
-                slnew = slnew + t_slsl
+            slnew = sl + r_slsl + t_slsl
                 
             # check slacks to stay in their bounds
             
@@ -569,10 +566,8 @@ def sqpdfo_solve_TR_bc_(simul=None,x=None,lb=None,ub=None,delta=None,mi=None,me=
             step=r_sl + tstep
             
             if nbr_slacks:
-                if iter_active == 1:
-                    slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
-                else:
-                    slnew = slnew + tstep[n:n+nbr_slacks]
+                slnew = sl + r_sl[n:n+nbr_slacks] + tstep[n:n+nbr_slacks]
+                sl = copy(slnew)
             
             if options.verbose == 3:
                 disp_('t = (',str(tstep[0:n].T),')')
-- 
2.43.0


From eee9ab6e032dd94120b6a523c5cf82cd5ca12ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 31/39] fix: infinite constraint values keep their sign and
 stay infeasible when they are replaced by finite ones

---
 sqpdfo/sqpdfo_main.py   | 5 +++--
 sqpdfo/sqpdfo_prelim.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index 6ec57aa..cbf30d8 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -796,8 +796,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
             
             if me > 0:
                 if (abs(ceX) < 1e25).any():
-                    ceX[ceX>=1e25] = 10*max_(ceX[ceX<1e25])
-                    ceX[ceX<=-1e25] = 10*min_(ceX[ceX>-1e25])
+                    cemax = 10*max_(1,max_(abs(ceX[abs(ceX)<1e25])))
+                    ceX[ceX>=1e25] = cemax
+                    ceX[ceX<=-1e25] = -cemax
                 ceplus = copy(array([ceX[:,m]]).T)
 
         # ---------------
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index 32a178d..b1331e6 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -380,8 +380,9 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
         # Check for infinity constraint values
         
         if (abs(ceX) < 1e25).any():
-            ceX[ceX>=1e25] = 10 * max_(ceX[ceX<1e25])
-            ceX[ceX<=-1e25] = 10 * min_(ceX[ceX>-1e25])
+            cemax = 10 * max_(1, max_(abs(ceX[abs(ceX)<1e25])))
+            ceX[ceX>=1e25] = cemax
+            ceX[ceX<=-1e25] = -cemax
                     
         fY=copy(fX)
         ciY=copy(ciX)
-- 
2.43.0


From e2618a3ef42f9800908caf3072298ffe5f6ef57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 32/39] fix: constraint functions returning integers crashed
 the run

---
 sqpdfo/sqpdfo_func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sqpdfo/sqpdfo_func.py b/sqpdfo/sqpdfo_func.py
index cc924c2..e57ef49 100644
--- a/sqpdfo/sqpdfo_func.py
+++ b/sqpdfo/sqpdfo_func.py
@@ -39,6 +39,7 @@ def sqpdfo_func_(x=None,*args,**kwargs):
             c = cfunc(xc)
             c = array(c).reshape(-1, 1)
             np.isnan(c)  # raises if c contains anything else than numbers
+            c = 1.0 * c  # integer values
         except:
             c = array([])
             msgc = 1
-- 
2.43.0


From 7322530bb95657f0637b3cae1750927c4fe52421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 33/39] fix: replacing a stored point by its evaluated version
 crashed for two or more variables or constraints

---
 sqpdfo/sqpdfo_augmX_evalf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_augmX_evalf.py b/sqpdfo/sqpdfo_augmX_evalf.py
index 57d49d6..e20cb0b 100644
--- a/sqpdfo/sqpdfo_augmX_evalf.py
+++ b/sqpdfo/sqpdfo_augmX_evalf.py
@@ -89,7 +89,7 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
         info.f=fvalue
     else:
         try:
-            X[:,m]=y
+            X[:,m]=y.reshape(-1)
         except IndexError:
             X=concatenate_([X,y],axis=1)
         if (scaleX):
@@ -175,13 +175,13 @@ def sqpdfo_augmX_evalf_(f=None,y=None,m=None,X_=None,fX_=None,ciX_=None,ceX_=Non
         
     if not isempty_(ci):
         try:
-            ciX[:,m]=real_(ci)
+            ciX[:,m]=real_(ci).reshape(-1)
         except IndexError:
             ciX=concatenate_([ciX, real_(ci)],axis=1)
             
     if not isempty_(ce):
         try:
-            ceX[:,m]=real_(ce)
+            ceX[:,m]=real_(ce).reshape(-1)
         except IndexError:
             ceX=concatenate_([ceX, real_(ce)],axis=1)
             
-- 
2.43.0


From e00625caa853333141568946e88d5a4d83a5db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 34/39] fix: bounds of other variables were applied when
 looking for the best interpolation point

---
 sqpdfo/sqpdfo_find_smallf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_find_smallf.py b/sqpdfo/sqpdfo_find_smallf.py
index ee6a511..3e88d0d 100644
--- a/sqpdfo/sqpdfo_find_smallf.py
+++ b/sqpdfo/sqpdfo_find_smallf.py
@@ -87,9 +87,14 @@ def sqpdfo_find_smallf_(c_=None,QZ_=None,RZ_=None,Y_=None,fY_=None,ciY_=None,ceY
 
     dummy_set=find_(dstatus == c.dummy)
     ind_insideBounds=array([])
+
+    #  (the bounds may be given as columns: compare variable by variable)
+
+    xlfree=xl[indfree].reshape(-1)
+    xufree=xu[indfree].reshape(-1)
     
     for i in range(0,cur_degree):
-        if((isempty_(find_(logical_or_(Y[:,i] < xl[indfree] , Y[:,i] > xu[indfree]),1)))\
+        if((isempty_(find_(logical_or_(Y[:,i] < xlfree , Y[:,i] > xufree),1)))\
             and (isempty_(find_(dummy_set == ind_Y[i],1)))):
             ind_insideBounds=concatenate_([ind_insideBounds,[i]],axis=1)
         else:
-- 
2.43.0


From 226e73e6a94f955745beb59e99ad542ce057eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 35/39] fix: options that are NaN or of a wrong type were
 accepted or crashed instead of being refused

---
 sqpdfo/sqpdfo_options.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/sqpdfo/sqpdfo_options.py b/sqpdfo/sqpdfo_options.py
index faeeec0..f56fd61 100644
--- a/sqpdfo/sqpdfo_options.py
+++ b/sqpdfo/sqpdfo_options.py
@@ -1,11 +1,19 @@
 # -*- coding: utf-8 -*-
 
 from sqpdfo.runtime import *
-from numpy import inf, array
+from numpy import inf, array, ndarray
+from numbers import Real
 from copy import copy
 from sqpdfo.sqpdfo_values import sqpdfoValues
 
 
+def is_number_(value):
+    """
+# true if value is a real number (but not NaN)
+    """
+    return (isinstance(value, Real) or (isinstance(value, ndarray) and value.size == 1)) and bool(value == value)
+
+
 def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
     """
 # [info,options,values] = sqpdfo_options (info,options)
@@ -38,13 +46,29 @@ def sqpdfo_options_(info_=None,options_=None,*args,**kwargs):
         options.fout = 1  # default value
 
     if isfield_(options, 'verbose'):
-        if (options.verbose < 0) or (options.verbose > 6):
+        if (not is_number_(options.verbose)) or (options.verbose < 0) or (options.verbose > 6):
             fprintf_(options.fout,
-                     '\n### sqpdfo_options: options.verbose = "%0i" and should be in [0,6], reset to 1\n\n' % (options.verbose))
+                     '\n### sqpdfo_options: options.verbose = "%s" and should be in [0,6], reset to 1\n\n' % (options.verbose))
             options.verbose = 1
     else:
         options.verbose = 1  # default value
 
+    # Check the types of the options
+
+    for name in ('dxmin', 'inf', 'miter', 'msimul', 'tol_grad', 'tol_feas', 'tol_bnds', 'bfgs_restart'):
+        if isfield_(options, name) and not is_number_(getattr(options, name)):
+            if options.verbose:
+                fprintf_(options.fout, '\n### sqpdfo_options: options.%s must be a number\n\n' % name)
+            info.flag = values.fail_on_argument
+            return info, options, values
+
+    for name in ('algo_descent', 'hess_approx', 'whichmodel', 'final_degree'):
+        if isfield_(options, name) and not isinstance(getattr(options, name), str):
+            if options.verbose:
+                fprintf_(options.fout, '\n### sqpdfo_options: options.%s must be a string\n\n' % name)
+            info.flag = values.fail_on_argument
+            return info, options, values
+
     if isfield_(options, 'algo_descent'):
         algo_descent_str = options.algo_descent.lower().replace(" ", "")
         if (algo_descent_str == 'powell'):
-- 
2.43.0


From cf1606bb634ac813ea3ebf9ff270d268bd615dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 36/39] fix: options held in class attributes were ignored and
 an options class was modified

---
 sqpdfo/sqpdfo.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 15bf03e..471c3e8 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -136,7 +136,14 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         class options:
             pass
     else:
-        options = copy(options_)
+        # a copy, including the attributes inherited from a class
+        options = dummyUnionStruct()
+        if isinstance(options_, dict):
+            vars(options).update(options_)
+        else:
+            for name in dir(options_):
+                if not name.startswith('__'):
+                    setattr(options, name, getattr(options_, name))
 
     # Variables with equal bounds are fixed: optimize over the free variables only
 
-- 
2.43.0


From 2d499d4a7af9d8f82567efb8a68fe542097a28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 37/39] fix: constraint functions returning another number of
 values than stated crashed or were accepted

---
 sqpdfo/sqpdfo.py        | 10 ++++++++++
 sqpdfo/sqpdfo_prelim.py | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/sqpdfo/sqpdfo.py b/sqpdfo/sqpdfo.py
index 471c3e8..830d781 100644
--- a/sqpdfo/sqpdfo.py
+++ b/sqpdfo/sqpdfo.py
@@ -89,6 +89,10 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
     if mi is None:
         mi = 0
 
+    if me < 0 or mi < 0 or me != int(me) or mi != int(mi):
+        print('Error: The numbers of constraints me and mi must be nonnegative integers !')
+        return x, lm, info
+
     for func in (func_f, func_c):
         if func is not None and not callable(func):
             print('Error: The objective and the constraints must be callable !')
@@ -316,6 +320,7 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         fclose_(fid)
         
     # call to sqpdfo_prelim
+    nbr_cons = me + mi
     n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta,nfix,indfix,xfix,vstatus,xstatus,\
     sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,poised_model,X,fX,Y,fY,\
     ciX,ciY,ceX,ceY,poisedness_known,m,gx,normgx,fcmodel,ind_Y,i_xbest,\
@@ -325,6 +330,11 @@ def sqpdfo_(options_=None,func_f=None,x0=None,lb=None,ub=None,me=None,mi=None,fu
         Lambda_CP,eps_L,lSolver,hardcons,stratLam,xstatus,sstatus,dstatus,\
         options,nargout=47)
         
+    # the constraint function must return the stated number of values
+    if not info.flag and nbr_cons > 0 and me != nbr_cons:
+        print('Error: func_c() returns %i values instead of me + mi = %i !' % (me, nbr_cons))
+        info.flag = values.fail_on_simul
+
     if info.flag:
         #  Append closing bracket in file convhist.m
         if (verbose):
diff --git a/sqpdfo/sqpdfo_prelim.py b/sqpdfo/sqpdfo_prelim.py
index b1331e6..712554b 100644
--- a/sqpdfo/sqpdfo_prelim.py
+++ b/sqpdfo/sqpdfo_prelim.py
@@ -486,6 +486,17 @@ def sqpdfo_prelim_(func_=None,x0_=None,lm0_=None,Delta0_=None,lb_=None,ub_=None,
         info.ce=array([])
         info.ae=array([])
         
+    # There must be a constraint value for each of the slack variables
+
+    if me < nbr_slacks:
+        if options.verbose:
+            fprintf_(options.fout,'### sqpdfo_prelim: less constraint values than inequalities\n\n')
+        info.flag=values.fail_on_simul
+        return n,nb,mi,me,x,lm,lb,ub,scalefacX,Delta0,nfix,indfix,xfix,vstatus,xstatus,\
+        sstatus,dstatus,QZ,RZ,scale,poised,Y_radius,poised_model,X,fX,Y,fY,\
+        ciX,ciY,ceX,ceY,poisedness_known,m,gx,normgx,fcmodel,ind_Y,i_xbest,\
+        cur_degree,rep_degree,plin,pdiag,pquad,indfree,info,options,values
+
     # Initialize slack variables if necessary
     
     if nbr_slacks > 0:
-- 
2.43.0


From e32d9609fb86bfbcd3adf25966c41271f3104add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 38/39] fix: snap trust-region steps to bounds relative to
 small radii

The bound tolerance of the bound-constrained subproblem solver was an absolute
1e-5, so that for radii below it the step was moved onto any bound of the
trust region, including the one in the uphill direction: steps longer than the
radius and increasing the model, which made runs stall.
---
 sqpdfo/bcdfo_solve_TR_MS_bc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqpdfo/bcdfo_solve_TR_MS_bc.py b/sqpdfo/bcdfo_solve_TR_MS_bc.py
index 778425a..ab7ee4c 100644
--- a/sqpdfo/bcdfo_solve_TR_MS_bc.py
+++ b/sqpdfo/bcdfo_solve_TR_MS_bc.py
@@ -69,8 +69,8 @@ def bcdfo_solve_TR_MS_bc_(g=None,H=None,lb=None,ub=None,Delta=None,eps_D=None,st
     elif options.verbose > 2:
         verbose = 2                 # 2 for debug
     theta      = 1.0e-13;          # accuracy of the interval on lambda
-    eps_bound  = 1.0e-5;           # the max distance | bound - x | < eps_bound for 
-                               # a boundary solution
+    eps_bound  = 1.0e-5*min(1.0,float(Delta))  # the max distance | bound - x | < eps_bound for
+                               # a boundary solution (relative to small radii)
                                  
     # initialization 
 
-- 
2.43.0


From 7e7c912d8dbb71257055447c2e100fa9e7ae300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:37 +0000
Subject: [PATCH 39/39] fix: steps were compared with the merit of an earlier
 iterate after the iterate moved by a replacement or to a better interpolation
 point

---
 sqpdfo/sqpdfo_main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqpdfo/sqpdfo_main.py b/sqpdfo/sqpdfo_main.py
index cbf30d8..9989ad1 100644
--- a/sqpdfo/sqpdfo_main.py
+++ b/sqpdfo/sqpdfo_main.py
@@ -545,6 +545,9 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                               indfree,x,lb,ub,fx,dstatus,whichmodel,scale,shift_Y,\
                               delta,normgx,kappa_ill,sigma,info,nargout=12)
 
+            if i_xbest != i_xold:
+                radius_has_been_rejected=copy(False)
+
             #  Compute new model(s).
 
             fcmodel=bcdfo_computeP_(QZ,RZ,Y,concatenate_([fY.reshape(1,-1),ciY,ceY]),\
@@ -1243,6 +1246,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                 
                                 fx=copy(fxplus)
                                 info.f=fx
+                                radius_has_been_rejected=copy(False)
                                 
                                 if mi > 0:
                                     info.ci=copy(ciY[:,[0]])
@@ -1365,6 +1369,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                                                     
                                     fx=copy(fxplus)
                                     info.f=fx
+                                    radius_has_been_rejected=copy(False)
                                     
                                     if mi > 0:
                                         info.ci=ciY[:,[0]]
@@ -1477,7 +1482,7 @@ def sqpdfo_main_(func_=None,n_=None,nb_=None,mi_=None,me_=None,lm_=None,nitold_=
                 # Recover ce at the current iterate
 
                 #info.ce=ce0
-                info.f=f0
+                info.f=copy(fx)
 
                 # Recompute Lagrange multiplier
 
-- 
2.43.0

