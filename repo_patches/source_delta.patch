From d65b2394d4cf86b7448b9108db551c2058c7f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:06 +0000
Subject: [PATCH 01/71] fix: split methods discretised the gradient and the
 structure twice

With split=True, M and z were discretised again after the explicit/implicit
split: x was shifted by 2*theta*dx (or averaged twice for the trapezoidal
rule). The discrete gradient was rebuilt too, with every resolved storage
assumed quadratic, so that e.g. a nonlinear storage which is only connected to
sources got a linearised gradient and its power balance was broken.
---
 pyphs/numerics/numerical_method/_method.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..6f56c89 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -153,10 +153,8 @@ class Method(Core):
             self.explicit_implicit()
             if VERBOSE >= 2:
                 print('    Re-Build numerical structure...')
-            # build the discrete evaluation for the gradient
-            build_gradient_evaluation(self)
-            # build the discrete evaluation for the structure
-            build_structure_evaluation(self)
+            # NB: the discrete gradient and the discrete structure are already
+            # built, and they have been reordered by the split above.
             # build method updates
             set_structure(self)
 
-- 
2.43.0


From d8c15be3206d5f90591a46923ced20d6676fb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:06 +0000
Subject: [PATCH 02/71] fix: gradient symbols in the structure were wrongly
 discretised

The discrete gradient that replaces the symbols g in M and z was itself shifted
by the sequential substitution of x, and was left unresolved in the first term
of the trapezoidal rule (simulations then failed with 'Missing free symbols').
---
 pyphs/numerics/numerical_method/_method.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 6f56c89..683e721 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -756,23 +756,28 @@ def build_structure_evaluation(method):
     for i, (gi, gi_discret) in enumerate(zip(method.g(), method.dxH())):
         subs[gi] = gi_discret
 
+    # NB: substitutions must be simultaneous, because the discrete gradient
+    # already depends on x and dx.
+
     # if theta is a numeric => theta scheme
     if isinstance(theta, (int, float)):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+theta*dxi
         # Substitute symbols in core.M
-        method.M = method.M.subs(subs)
+        method.M = method.M.xreplace(subs)
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = z.subs(subs)
+            method.z[i] = z.xreplace(subs)
 
     # else if theta == 'trapez' => trapezoidal
     else:
         assert theta == 'trapez'
+        # the gradient is the same in both terms of the mean
+        subs_g = subs.copy()
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+dxi
         # Substitute symbols in core.M
-        method.M = 0.5*(method.M + method.M.subs(subs))
+        method.M = 0.5*(method.M.xreplace(subs_g) + method.M.xreplace(subs))
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = 0.5*(z + z.subs(subs))
+            method.z[i] = 0.5*(z.xreplace(subs_g) + z.xreplace(subs))
-- 
2.43.0


From 5f8d39f9bd160770be1a5fbcf56623e27f14f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:06 +0000
Subject: [PATCH 03/71] fix: storages coupled with a nonlinear storage were
 treated as linear

A quadratic storage coupled by a constant coefficient with a nonlinear one was
put in the linear part: the affine term bl then contained the nonlinear state
and the discrete gradient of both was wrong, which broke the power balance.
---
 pyphs/core/structure/splits.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 1e9beaf..0be640f 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -89,6 +89,18 @@ def linear_nonlinear(core, criterion=None):
             move_stor(core, nxl, core.dims.x()-1)
             hess = movefunc(hess, nxl, core.dims.x()-1)
 
+    # a storage is linear only if it is not coupled with a nonlinear one
+    hess = hessian(core.H, core.x)
+    i = 0
+    while i < nxl:
+        if all(elt == 0 for elt in hess[i, nxl:]):
+            i += 1
+        else:
+            move_stor(core, i, core.dims.x()-1)
+            hess = movesquarematrixcolnrow(hess, i, core.dims.x()-1)
+            nxl -= 1
+            i = 0
+
     # split dissipative part
     nwl = 0
     jacz = criterion[1][0]
-- 
2.43.0


From b9748705f11cabee4216933ec9fa620462ab6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:33 +0000
Subject: [PATCH 04/71] fix: Evaluation of vector expressions and calls with
 scalar arguments

Evaluations of vector expressions returned an array of generator objects (so
that the observers recorded in simulation data could not be read, nor any
quantity of a system with observers), raised TypeError without vslice, ignored
vectorize=False, and evaluations could not be called with scalars as described
in the tutorial.
---
 pyphs/numerics/tools/_evaluation.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..e742e1f 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -11,6 +11,7 @@ from pyphs.misc.tools import geteval, find
 from pyphs.core.tools import free_symbols, types
 from ._lambdify import lambdify
 import numpy
+from inspect import isgenerator
 
 
 def pyphs_vectorize(func):
@@ -19,11 +20,13 @@ def pyphs_vectorize(func):
     """
     #return numpy.vectorize(func)
     def vec_func(*args):
+        # scalar arguments
+        if all(numpy.ndim(a) == 0 for a in args):
+            return func(*args)
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
-        for ith_args in zip(*args):
-            yield func(*ith_args)
+        return (func(*ith_args) for ith_args in zip(*args))
     return vec_func
 
 
@@ -95,6 +98,7 @@ class Evaluation(object):
             func, args, inds = self.expr_to_numeric(self.core, name,
                                                     self.args(),
                                                     theano=theano,
+                                                    vectorize=vectorize,
                                                     vslice=vslice)
             setattr(self, name, func)
             setattr(self, name+'_args', args)
@@ -146,16 +150,21 @@ class Evaluation(object):
             # args are symbs reorganized
             args, inds = find(symbs, allargs)
 
+            # select components of vector expressions
+            isvector = isinstance(expr, types.vector_types)
+            if isvector and vslice is not None:
+                expr = expr[vslice]
+
             if isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr,
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
                     )
             else:
-                if vslice is not None and not vslice.start == vslice.stop == vslice.step == None:
+                if not isvector and vslice is not None and not vslice.start == vslice.stop == vslice.step == None:
                     raise AttributeError("Can not slice evaluation of scalar expression: expr={}, vslice={}".format(expr, vslice))
                 func = scalar_expr_to_numeric(args, expr, subs=core.subs,
                                               theano=theano,
@@ -231,6 +240,9 @@ def vector_expr_to_numeric(args, expr, subs=None, theano=None, vectorize=True):
                                                 vectorize=vectorize))
 
         def func(*args):
-            return numpy.array(tuple(map(lambda f: f(*args), funcs))).T
+            values = [f(*args) for f in funcs]
+            # vectorized functions return generators
+            return numpy.array([tuple(v) if isgenerator(v) else v
+                                for v in values]).T
 
         return func
-- 
2.43.0


From 8d0467a51a7baa39c3aadf121427d47107fb9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:33 +0000
Subject: [PATCH 05/71] fix: data readers left the hdf5 file open

The close statements were unreachable.
---
 pyphs/numerics/simulations/h5data/h5data.py | 30 ++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..8c108d5 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -853,14 +853,14 @@ or an integer nt (number of time steps).'
             arrays.append(array)
         output = numpy.hstack(arrays)[vslice]
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def _expression(self, name, tslice=None, vslice=None, postprocess=None):
 
         tslice = self._tslice(tslice)
@@ -896,15 +896,15 @@ or an integer nt (number of time steps).'
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if close:
+            self.h5close()
+
         # Apply postprocess
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def args(self, tslice=None, vslice=None, postprocess=None):
         """
         args
@@ -1048,14 +1048,14 @@ or an integer nt (number of time steps).'
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def a(self, tslice=None, vslice=None, postprocess=None):
@@ -1401,14 +1401,14 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def E(self, tslice=None, vslice=None, postprocess=None):
@@ -1508,10 +1508,10 @@ or an integer nt (number of time steps).'
                               self['u', tslice],
                               self['y', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
-
-        if close:
-            self.h5close()
-- 
2.43.0


From 0906bec84ae96fff3ef990a56580a960c2f01b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:33 +0000
Subject: [PATCH 06/71] fix: component and decimated time slices of derived
 data

The component slice of args, args_o, a and b was applied to time, and
expressions with no arguments had a wrong number of samples for decimation
factors that do not divide the number of time steps.
---
 pyphs/numerics/simulations/h5data/h5data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8c108d5..33c6e11 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -851,7 +851,7 @@ or an integer nt (number of time steps).'
             if len(array.shape) < 2:
                 array = array[:, numpy.newaxis]
             arrays.append(array)
-        output = numpy.hstack(arrays)[vslice]
+        output = numpy.hstack(arrays)[:, vslice]
 
         if close:
             self.h5close()
@@ -874,7 +874,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
-- 
2.43.0


From bcf9791e577c719cbc3e58e5ad87c8baafd6539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 07/71] fix: dissipations coupled with a nonlinear one were
 treated as linear

A law with a constant part, or coupled through z with a nonlinear law, is not
of the form Zl.wl: keep it in the nonlinear part.
---
 pyphs/core/structure/splits.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 0be640f..dd4e050 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -119,6 +119,22 @@ def linear_nonlinear(core, criterion=None):
             move_diss(core, nwl, core.dims.w()-1)
             jacz = movefunc(jacz, nwl, core.dims.w()-1)
 
+    # a dissipation is linear only if z_i has no constant part and is not
+    # coupled with a nonlinear one
+    jacz = jacobian(core.z, core.w)
+    zeros = dict((w, 0) for w in core.w)
+    i = 0
+    while i < nwl:
+        coupling = list(jacz[i, nwl:]) + list(jacz[nwl:, i])
+        if (all(elt == 0 for elt in coupling) and
+                sympy.simplify(core.z[i].subs(zeros)) == 0):
+            i += 1
+        else:
+            move_diss(core, i, core.dims.w()-1)
+            jacz = movesquarematrixcolnrow(jacz, i, core.dims.w()-1)
+            nwl -= 1
+            i = 0
+
     # number of linear components
     setattr(core.dims, '_xl', nxl)
     # Hamiltonian of linear components
-- 
2.43.0


From 6a32352d7e68970c00878cf37c43831de7ed6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:26 +0000
Subject: [PATCH 08/71] fix: reduce_z with protected dissipative variables

Linear variables listed in force_wnl were moved one index too far (or not at
all for nonlinear ones), Zl was cleared before use, and linear laws coupled
with a protected one were eliminated without their coupling.
---
 pyphs/core/structure/R.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..b873586 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import, division, print_function
 import sympy
 from pyphs.misc.tools import geteval
 from pyphs.core.tools import types
-from pyphs.core.maths import inverse
+from pyphs.core.maths import inverse, jacobian
 
 
 def reduce_z(core):
@@ -42,20 +42,24 @@ after this operation, and :code:`core.z()=core.znl()`.
 """
     # identify the linear components
     core.linear_nonlinear()
-    # identify the number of components excluded from the linear part
-    nforced = len(core.force_wnl)
-    # move linear and excluded components at the top of linear components list
-    if not nforced == 0:
-        i = 0
-        for _ in range(core.dims.wl()):
-            if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
-            else:
-                i += 1
+    # identify the linear components excluded from the reduction, that is, the
+    # forced ones and those coupled with them
+    excluded = set(core.wl()).intersection(core.force_wnl)
+    pending = list(excluded)
+    while pending:
+        j = core.wl().index(pending.pop())
+        for i, w in enumerate(core.wl()):
+            if w not in excluded and (core.Zl[i, j] != 0 or
+                                      core.Zl[j, i] != 0):
+                excluded.add(w)
+                pending.append(w)
+    # move excluded components at the end of linear components list
+    for w in [w for w in core.wl() if w in excluded]:
+        core.move_dissipative(core.w.index(w), core.dims.wl()-1)
         # reduce number of linear components
-        core.dims._wl -= nforced
-        # reduce Zl
-        core.Zl = core.Zl[:-nforced, :-nforced]
+        core.dims._wl -= 1
+    # reduce Zl
+    core.Zl = jacobian(core.zl(), core.wl())
     # build inverse of Dl
     iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)
     # build Dl
@@ -91,3 +95,4 @@ after this operation, and :code:`core.z()=core.znl()`.
     core.z = core.z[core.dims.wl():]
     # Set dim(wl) to 0
     core.dims._wl = 0
+    core.Zl = jacobian(core.zl(), core.wl())
-- 
2.43.0


From 0fd674189f1fc904c9d694b0e10d361835b8500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:26 +0000
Subject: [PATCH 09/71] fix: sign of the connection in the documentation of
 add_connector

connect() imposes u0 = -alpha*y1 and u1 = alpha*y0, as documented for the
gyrator and transformer components.
---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..7065c8d 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -769,8 +769,8 @@ class Core:
         Description
         -----------
         The resulting connection reads:
-            * :code:`core.u[indices[0]] = alpha * core.y[indices[1]]`,
-            * :code:`core.u[indices[1]] = -alpha * core.y[indices[0]]`.
+            * :code:`core.u[indices[0]] = -alpha * core.y[indices[1]]`,
+            * :code:`core.u[indices[1]] = alpha * core.y[indices[0]]`.
 
         Notice this method only stores a description of the connection in the
         :code:`core.connectors` argument. The connection will be effective only
-- 
2.43.0


From c6118ef88e9b45911731a4e310048d24c74144bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:28 +0000
Subject: [PATCH 10/71] fix: copy, load and freesymbols of a core

Copying or loading a core with an expression reduced to a symbol or an integer
raised a TypeError, expressions added with setexpr were not loaded, and
freesymbols always returned the empty set.
---
 pyphs/core/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 7065c8d..4a8682d 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -261,8 +261,8 @@ class Core:
 
         for name in (list(set().union(
                           self.attrstocopy,
-                          self.exprs_names,
-                          self.symbs_names))):
+                          dico['exprs_names'],
+                          dico['symbs_names']))):
             if isinstance(name, str):
                 target = self
                 attr_name = name
@@ -272,7 +272,7 @@ class Core:
             attr = dico[attr_name]
             try:
                 setattr(target, attr_name, attr.copy())
-            except AttributeError:
+            except (AttributeError, TypeError):
                 setattr(target, attr_name, copy.copy(attr))
 
         if VERBOSE > 0:
@@ -298,7 +298,7 @@ class Core:
             attr = geteval(source, attr_name)
             try:
                 setattr(target, attr_name, attr.copy())
-            except AttributeError:
+            except (AttributeError, TypeError):
                 setattr(target, attr_name, copy.copy(attr))
         core.label = copy.copy(self.label)
         return core
@@ -531,8 +531,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs = symbs.union(free_symbols(expr))
+        symbs = symbs.union(free_symbols(self.M))
         return symbs
 
     def dxH(self):
-- 
2.43.0


From 9e2dd58eaf413e77c157249d05702ac65d09f78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:28 +0000
Subject: [PATCH 11/71] fix: substitutions of a core

Chained symbolic values were dropped before being resolved, connector ratios
kept the removed symbols, the user's dictionary was modified and the simplified
expressions were discarded.
---
 pyphs/core/tools/_substitutions.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..bf48948 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -186,9 +186,8 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
 
     """
 
-    # init substitution dic
-    if subs is None:
-        subs = {}
+    # init substitution dic (do not modify the user's dictionary)
+    subs = {} if subs is None else dict(subs)
 
     # append self subs dic
     if selfall:
@@ -197,6 +196,13 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
     # append only exprs in core subs dic
     elif selfexprs:
         subs.update(core.subsexprs)
+        # resolve the expressions that refer to other expressions
+        for _ in range(len(subs)):
+            resolved = dict((k, substitute_scalar(v, subs))
+                            for k, v in subs.items())
+            if resolved == subs:
+                break
+            subs = resolved
 
     # substitutions in core's own subsitution dictionary
     core.subs = substitute_dict(core.subs, subs)
@@ -214,9 +220,17 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
         if expr is None or callable(expr):
             pass
         else:
-            setattr(core, name, substitute(expr, subs_e))
+            expr = substitute(expr, subs_e)
             if simplify:
                 expr = simplify_func(expr)
+            setattr(core, name, expr)
+
+    # substitutions in connectors and in list of dissipations to be ignored
+    core.connectors = [{'u': substitute_vector(list(c['u']), subs),
+                        'y': substitute_vector(list(c['y']), subs),
+                        'alpha': substitute_scalar(c['alpha'], subs)}
+                       for c in core.connectors]
+    core.force_wnl = substitute_vector(list(core.force_wnl), subs)
 
     # remove entries in core.subs
     for k in subs.keys():
-- 
2.43.0


From 9a7d3384f32b0bc9c0c5b4addecdaa681c530300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 12/71] fix: subsinverse of an expression that simplifies to a
 symbol or a number

---
 pyphs/core/tools/_subsinverse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyphs/core/tools/_subsinverse.py b/pyphs/core/tools/_subsinverse.py
index a4efc46..cf99f86 100644
--- a/pyphs/core/tools/_subsinverse.py
+++ b/pyphs/core/tools/_subsinverse.py
@@ -18,6 +18,9 @@ def subsinverse_scalar(expr, subs, symbols):
     else:
         expr = sp.simplify(expr)
         args = expr.args
+        # simplification can result in a symbol or a number
+        if len(args) == 0:
+            return expr
         try:
             test3 = bool(args[1] < 0)
         except (TypeError, IndexError, AttributeError):
-- 
2.43.0


From a6771ad2c750563a48cbe36160b19f940864fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:42 +0000
Subject: [PATCH 13/71] fix: control and type of edges compared by identity in
 the graph analysis

---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..fd122b8 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -351,7 +351,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -377,7 +377,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -435,7 +435,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 self.inverse_alpha(e)
@@ -459,7 +459,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From 9c0e234f13fbe0448bf017e91c72d5abbcb1620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:04 +0000
Subject: [PATCH 14/71] fix: ratio of transformers and gyrators according to
 the control of their edges

The relations imposed by effort-controlled gyrators and by transformers with
flux-controlled first edge had the wrong sign or ratio, and building the core
twice from the same graph inverted the ratio twice.
---
 pyphs/graphs/analysis.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index fd122b8..8527a67 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -21,7 +21,9 @@ class GraphAnalysis:
         self._verbose = verbose
         self.ndatum = 0
         self.nodes = list(graph.nodes())
-        self.edges = list(graph.edges(data=True))
+        # edges data are copied since the analysis changes the connectors ratio
+        self.edges = [(n1, n2, dict(data))
+                      for (n1, n2, data) in graph.edges(data=True)]
         # Compute incidence Matrix
         Gamma = networkx.linalg.incidence_matrix(graph, oriented=True)
         # we use the other convention for orientation encoding in Gamma
@@ -438,7 +440,8 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
+                # relations are f_A = e_B/alpha and f_B = -e_A/alpha
+                self.inverse_alpha(e, minus=True)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -449,7 +452,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -472,6 +474,9 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_fc(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
+                # if e is edge A, relations are e_A = e_B/alpha and
+                # f_B = -f_A/alpha
+                self.inverse_alpha(e, minus=True)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
-- 
2.43.0


From 56336484b8e355fd1f3a40004fca14459753da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:04 +0000
Subject: [PATCH 15/71] fix: numbered nodes and labels with '_out_' in
 series/parallel graphs

---
 pyphs/graphs/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index 9c134da..081b499 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -431,7 +431,8 @@ class Graph(nx.MultiDiGraph):
                 if not n == datum:
                     sg.add_edge(datum, n, **{'type': 'port',
                                              'ctrl': '?',
-                                             'label': sglabel + '_out_' + n})
+                                             'label': sglabel + '_out_' +
+                                                      str(n)})
             # build subgraph analysis object
             sg._build_analysis()
             # add subgraph to root graph
@@ -481,7 +482,8 @@ class Graph(nx.MultiDiGraph):
                 if not n == datum:
                     pg.add_edge(datum, n, **{'type': 'port',
                                              'ctrl': '?',
-                                             'label': pglabel + '_out_' + n})
+                                             'label': pglabel + '_out_' +
+                                                      str(n)})
             # add subgraph to root graph
             self.add_edge(n1, n2, **{'type': 'graph',
                                      'ctrl': '?',
@@ -514,7 +516,9 @@ class Graph(nx.MultiDiGraph):
             # get type and label
             elabel = e[-1]['label']
             etype = e[-1]['type']
-            if '_out_' in str(elabel) or etype == 'graph':
+            # labels of components are symbols, labels of outputs are strings
+            isout = isinstance(elabel, str) and '_out_' in elabel
+            if isout or etype == 'graph':
                 self.remove_edges_from_list([e, ])
 
     def sp_split(self):
-- 
2.43.0


From b3caf0c1c3ce360744b0edd82bb34b6bedb4fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:24 +0000
Subject: [PATCH 16/71] fix: endless loops on closed chains and on locked
 realizability analysis

---
 pyphs/graphs/analysis.py | 3 +++
 pyphs/graphs/tools.py    | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 8527a67..17137d4 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -225,6 +225,9 @@ Execute an iteration over the lists:
             if isequal(self.Lambda_temp, self.Lambda) & \
                     (len(self.ic_edges) + len(self.ic_nodes) > 0):
                 self.unlock()
+                # stop if nothing has been unlocked
+                if isequal(self.Lambda_temp, self.Lambda):
+                    raise CanNotUnlock
         if self._plot:
             self.plot()
         try:
diff --git a/pyphs/graphs/tools.py b/pyphs/graphs/tools.py
index 75e17a9..1e8a59d 100644
--- a/pyphs/graphs/tools.py
+++ b/pyphs/graphs/tools.py
@@ -106,6 +106,10 @@ def serial_edges(graph):
             s = s1[:-1] + s2
             serial_nodes += s
 
+            # closed chains have no terminals
+            if s[0] == s[-1]:
+                continue
+
             # recover list of edges
             edges = list()
             for i, n in enumerate(s[:-1]):
-- 
2.43.0


From bfc67e70bd1e6d574b293a48fd4543e8ce53f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:56 +0000
Subject: [PATCH 17/71] fix: merge of serial components removed or crossed the
 other edges of the chain

---
 pyphs/graphs/subgraph.py | 47 +++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 42167c2..5f24cd9 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -13,7 +13,6 @@ import warnings
 from .tools import serial_next
 from networkx import Graph as nwxGraph
 from networkx import chain_decomposition
-from networkx import contracted_nodes
 import copy
 
 
@@ -670,39 +669,27 @@ determined\n{}'.format(e))
             if not ((n1, n2) in preserve_nodes or
                     (n2, n1) in preserve_nodes):
 
-                # new undirected graph
-                undirected = nwxGraph(self)
-
+                # the node to be contracted is not a terminal
                 if n1 in self.terminals:
-                    del_node, connect_node1 = n2, n1
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
+                    del_node, node = n2, n1
                 else:
-                    del_node, connect_node1 = n1, n2
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
-
-                # Add edge with new node
-                contracted_edges = contracted_nodes(self,
-                                                    connect_node1,
-                                                    del_node,
-                                                    self_loops=False).edges
-                self.add_edges_from(contracted_edges)
-                # Get edge key
-                edge = self.nodes2edge(del_node, connect_node2)
-                n1, n2 = edge[:2]
-                for key in self[n1][n2].keys():
-                    if self[n1][n2][key]['label'] == e[-1]['label']:
-                        break
-                data = edge[2]
-                # Actually remove edge
-                self.remove_edge(n1, n2, key)
-
-                edge = self.nodes2edge(connect_node1, connect_node2)
-                n1, n2 = edge[:2]
-                for k in data:
-                    self[n1][n2][0][k] = data[k]
+                    del_node, node = n1, n2
+
+                # Move edges from the deleted node
+                for ni, nj, data in self.edgeslist:
+                    if del_node in (ni, nj):
+                        for k in self[ni][nj].keys():
+                            if self[ni][nj][k]['label'] == data['label']:
+                                break
+                        self.remove_edge(ni, nj, k)
+                        self.add_edge(node if ni == del_node else ni,
+                                      node if nj == del_node else nj,
+                                      **data)
 
                 # store new node label
-                new_nodes[del_node] = connect_node1
+                for n in new_nodes:
+                    if new_nodes[n] == del_node:
+                        new_nodes[n] = node
 
             self.remove_orphan_nodes()
 
-- 
2.43.0


From 674496057b8a38f429728fda3f638494c1d8c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:19 +0000
Subject: [PATCH 18/71] fix: sum with a system whose structure matrix is not
 initialized

---
 pyphs/core/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 4a8682d..9f78fc5 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -322,10 +322,17 @@ class Core:
             attr2 = getattr(core2, name)
             core.setsymb(name, attr1 + attr2)
 
+        def block(c, vari, varj):
+            "Block of the structure matrix (zero if it is not initialized)."
+            if c.M.shape[0] != c.dims.tot():
+                return sympy.zeros(getattr(c.dims, vari)(),
+                                   getattr(c.dims, varj)())
+            return getattr(c, 'M'+vari+varj)()
+
         for vari in core.dims.names:
             for varj in core.dims.names:
-                Mij1 = getattr(core1, 'M'+vari+varj)()
-                Mij2 = getattr(core2, 'M'+vari+varj)()
+                Mij1 = block(core1, vari, varj)
+                Mij2 = block(core2, vari, varj)
                 Mij = types.matrix_types[0](sympy.diag(Mij1, Mij2))
                 if all(dim > 0 for dim in Mij.shape):
                     set_func = getattr(core, 'set_M'+vari+varj)
-- 
2.43.0


From 76b4675bc9b29e8b850669a869ea55682bf4dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:19 +0000
Subject: [PATCH 19/71] fix: removed states left in the energy after a merge of
 storages

---
 pyphs/graphs/subgraph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 5f24cd9..9c315cc 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -471,15 +471,23 @@ class SubGraph(Graph):
     def dxH_arc(self):
         return getattr(self, 'dxH_{0}c'.format(self.anti_realizability))
 
+    def _energy(self, x, dxH):
+        """
+        Part of the energy that depends on the variables in x.
+        """
+        H = self.core.H.subs(dict([(xn, 0) for xn in x]))
+        # cancels exactly with the corresponding terms in core.H
+        if H.is_finite is not False and not H.has(sympy.nan, sympy.zoo):
+            return self.core.H - H
+        return sum([sympy.integrate(dxhn, xn) for dxhn, xn in zip(dxH, x)])
+
     @property
     def H_rc(self):
-        return sum([sympy.integrate(dxhn, xn) for dxhn, xn in zip(self.dxH_rc,
-                                                                  self.x_rc)])
+        return self._energy(self.x_rc, self.dxH_rc)
 
     @property
     def H_arc(self):
-        return sum([sympy.integrate(dxhn, xn) for dxhn, xn in zip(self.dxH_arc,
-                                                                  self.x_arc)])
+        return self._energy(self.x_arc, self.dxH_arc)
 
     @property
     def w_rc(self):
-- 
2.43.0


From 727cfe5d5cca08ce33be62329c426e9e28f4e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:19 +0000
Subject: [PATCH 20/71] fix: merge of serial components left nested subgraphs
 at removed nodes

---
 pyphs/graphs/subgraph.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 9c315cc..81afd09 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -509,6 +509,25 @@ class SubGraph(Graph):
 #        if not hasattr(self, '_orientation'):
 #            self._orientation = orientation
 
+    def rename_node(self, old, new):
+        """
+        Move the edges from node old to node new, here and in the subgraphs.
+        """
+        for n1, n2, data in self.edgeslist:
+            if old in (n1, n2):
+                for key in self[n1][n2].keys():
+                    if self[n1][n2][key]['label'] == data['label']:
+                        break
+                self.remove_edge(n1, n2, key)
+                self.add_edge(new if n1 == old else n1,
+                              new if n2 == old else n2,
+                              **data)
+                if data['type'] == 'graph':
+                    data['graph'].rename_node(old, new)
+        self._terminals = tuple([new if n == old else n
+                                 for n in self._terminals])
+        self.remove_orphan_nodes()
+
     @property
     def terminals(self):
         """
@@ -684,15 +703,7 @@ determined\n{}'.format(e))
                     del_node, node = n1, n2
 
                 # Move edges from the deleted node
-                for ni, nj, data in self.edgeslist:
-                    if del_node in (ni, nj):
-                        for k in self[ni][nj].keys():
-                            if self[ni][nj][k]['label'] == data['label']:
-                                break
-                        self.remove_edge(ni, nj, k)
-                        self.add_edge(node if ni == del_node else ni,
-                                      node if nj == del_node else nj,
-                                      **data)
+                self.rename_node(del_node, node)
 
                 # store new node label
                 for n in new_nodes:
-- 
2.43.0


From beae0250953efa461f507ee3d15e064f60962c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 21/71] fix: sum of netlists changed its first operand

---
 pyphs/graphs/netlists.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..a8494fe 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -9,6 +9,7 @@ from __future__ import absolute_import, division, print_function
 
 import os
 import ast
+import copy
 from pyphs.config import datum, VERBOSE
 
 def sep():
@@ -83,7 +84,10 @@ i-th parameter is defined as 'label_pari'.
         return item
 
     def __add__(net1, net2):
-        net = net1
+        net = copy.copy(net1)
+        for name in ('dictionaries', 'components', 'labels', 'nodes',
+                     'arguments'):
+            setattr(net, name, list(getattr(net1, name)))
         for l in net2:
             net.add_line(l)
         return net
-- 
2.43.0


From 4b9bed933a42b46e6fcc8be5b82caefc5ca72904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:28 +0000
Subject: [PATCH 22/71] fix: netlist text with blank lines, spaces and
 separators in strings

---
 pyphs/graphs/netlists.py | 85 +++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 23 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index a8494fe..01f4f6d 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -16,6 +16,57 @@ def sep():
     return ','
 
 
+def partition(text, sep):
+    """
+    Partition of the text at the first separator which is not in a quoted
+    string.
+    """
+    quote = None
+    escape = False
+    for i, char in enumerate(text):
+        if quote is None:
+            if char == sep:
+                return text[:i], text[i+1:]
+            elif char in ('"', "'"):
+                quote = char
+        elif escape:
+            escape = False
+        elif char == '\\':
+            escape = True
+        elif char == quote:
+            quote = None
+    return text, ''
+
+
+def read_value(text):
+    """
+    Value of a parameter from the text in the netlist.
+    """
+    text = text.strip()
+    try:
+        return ast.literal_eval(text)
+    except (ValueError, SyntaxError):
+        if text.startswith('('):
+            return tuple(map(eval, text[1:-1].split(',')))
+        return text
+
+
+def print_value(value):
+    """
+    Text in the netlist for the value of a parameter. The strings which are not
+    simple identifiers or expressions are quoted.
+    """
+    if isinstance(value, str):
+        try:
+            ast.literal_eval(value)
+        except SyntaxError:
+            return repr(value)
+        except ValueError:
+            if value.startswith('(') or value != value.strip():
+                return repr(value)
+    return str(value)
+
+
 class Netlist:
     """
     Data structure for netlist elements. Each line of the netlist describes a\
@@ -115,38 +166,26 @@ components).
                 if line.startswith('#'):
                     if VERBOSE >= 1:
                         print('pass "{}"'.format(line[:-1]))
-                elif len(line) == 1:
+                elif len(line.strip()) == 0:
                     pass
                 else:
                     if VERBOSE >= 1:
                         print('read "{}"'.format(line[:-1]))
                     # get 'infos' (dic, comp and nodes) and parameters
-                    infos, _, parameters = line.partition(':')
-                    # get ‘dic.comp' and 'label nodes'
-                    si = infos.split()
-                    diccomp = si.pop(0)
-                    label = si.pop(0)
-                    nodes = ''.join(si)
+                    infos, parameters = partition(line.strip(), ':')
+                    # get ‘dic.comp', 'label' and 'nodes'
+                    diccomp, label, nodes = infos.split(None, 2)
                     dic, _, comp = diccomp.partition('.')
                     self.dictionaries = list(self.dictionaries)+[dic, ]
                     self.components = list(self.components)+[comp, ]
                     self.labels = list(self.labels)+[label, ]
-                    self.nodes = list(self.nodes)+[ast.literal_eval(nodes), ]
-                    nb_pars = parameters.count('=')
+                    self.nodes = list(self.nodes)+[ast.literal_eval(nodes.strip()), ]
                     pars = {}
-                    for n in range(nb_pars):
-                        par, _, parameters = parameters.partition(';')
-                        par = par.replace(' ', '')
-                        key, _, value = par.partition('=')
-                        if value.startswith('('):
-                            value = value[1:-1].split(',')
-                            value = tuple(map(eval, value))
-                        else:
-                            try:
-                                value = ast.literal_eval(value)
-                            except ValueError:
-                                pass
-                        pars.update({key: value})
+                    while len(parameters) > 0:
+                        par, parameters = partition(parameters, ';')
+                        key, equal, value = par.partition('=')
+                        if equal:
+                            pars.update({key.strip(): read_value(value)})
                     self.arguments = list(self.arguments)+[pars, ]
 
     def netlist(self):
@@ -378,6 +417,6 @@ or tuple (str, float).
     pars = ""
     if dic['arguments'] is not None:
         for par in dic['arguments'].keys():
-            pars += ' {}={};'.format(par, str(dic['arguments'][par]))
+            pars += ' {}={};'.format(par, print_value(dic['arguments'][par]))
     line = component + pars + '\n'
     return line
-- 
2.43.0


From 1e526da054ca486ceeaff35d04f9cad88e3f0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 23/71] fix: component parameters named as another parameter of
 the component

---
 pyphs/dictionary/edges/connectors.py     | 2 +-
 pyphs/dictionary/edges/dissipatives.py   | 4 ++--
 pyphs/dictionary/edges/storages.py       | 2 +-
 pyphs/dictionary/mechanics/_felt.py      | 4 ++--
 pyphs/dictionary/mechanics_dual/_felt.py | 4 ++--
 pyphs/dictionary/transducers/_pickup.py  | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyphs/dictionary/edges/connectors.py b/pyphs/dictionary/edges/connectors.py
index 8b9dd16..5b41002 100644
--- a/pyphs/dictionary/edges/connectors.py
+++ b/pyphs/dictionary/edges/connectors.py
@@ -24,7 +24,7 @@ class Connector(Graph):
         self.core.subs.update(subs)
         # replace parameters in alpha by correspondances in 'dicpars'
         alpha = self.core.symbols('alpha')
-        alpha = alpha.subs(dicpars)
+        alpha = alpha.subs(dicpars, simultaneous=True)
         # symbols for inputs and outputs:
         u1, u2 = self.core.symbols([nicevarlabel('u', label + str(el))
                                     for el in (1, 2)])
diff --git a/pyphs/dictionary/edges/dissipatives.py b/pyphs/dictionary/edges/dissipatives.py
index 2818729..37dc176 100644
--- a/pyphs/dictionary/edges/dissipatives.py
+++ b/pyphs/dictionary/edges/dissipatives.py
@@ -119,11 +119,11 @@ keys of the kwargs arguments.
         self.core.subs.update(subs)
         # replace parameters in z by correspondances in 'dicpars'
         for i, zz in enumerate(z):
-            z[i] = zz.subs(dicpars)
+            z[i] = zz.subs(dicpars, simultaneous=True)
         for e, edge in enumerate(edges):
             if 'z' in edge[2].keys():
                 for k in ['e_ctrl', 'f_ctrl']:
-                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars)
+                    edges[e][2]['z'][k] = edge[2]['z'][k].subs(dicpars, simultaneous=True)
 
         # add dissipative component
         self.core.add_dissipations(w, z)
diff --git a/pyphs/dictionary/edges/storages.py b/pyphs/dictionary/edges/storages.py
index d9c48df..3dfe554 100644
--- a/pyphs/dictionary/edges/storages.py
+++ b/pyphs/dictionary/edges/storages.py
@@ -92,7 +92,7 @@ keys of the kwargs arguments.
         # update dict of subs in phs
         self.core.subs.update(subs)
         # replace parameters in H by correspondances in 'dicpars'
-        H = H.subs(dicpars)
+        H = H.subs(dicpars, simultaneous=True)
         # add dissipative component
         self.core.add_storages(x, H)
         # update phs.Graph with edges
diff --git a/pyphs/dictionary/mechanics/_felt.py b/pyphs/dictionary/mechanics/_felt.py
index 05485e8..0085564 100644
--- a/pyphs/dictionary/mechanics/_felt.py
+++ b/pyphs/dictionary/mechanics/_felt.py
@@ -29,7 +29,7 @@ class Felt(Graph):
         N1, N2 = nodes
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.subs(dicpars, simultaneous=True)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -39,7 +39,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.subs(dicpars, simultaneous=True)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/mechanics_dual/_felt.py b/pyphs/dictionary/mechanics_dual/_felt.py
index 5dbf08b..ebc5cca 100644
--- a/pyphs/dictionary/mechanics_dual/_felt.py
+++ b/pyphs/dictionary/mechanics_dual/_felt.py
@@ -31,7 +31,7 @@ class Felt(Graph):
         N3 = label+'_N3'
         xnl = symbols('q'+label)
         hnl = sp.Piecewise((0., xnl <= 0.), ((L*F/(B+1))*(xnl/L)**(B+1), True))
-        hnl = hnl.subs(dicpars)
+        hnl = hnl.subs(dicpars, simultaneous=True)
         # edge data
         data = {'label': xnl,
                 'type': 'storage',
@@ -41,7 +41,7 @@ class Felt(Graph):
         self.core.add_storages(xnl, hnl)
 
         r = sp.Piecewise((0., xnl <= 0.), ((A * L/B)*(xnl/L)**(B-1), True))
-        r = r.subs(dicpars)
+        r = r.subs(dicpars, simultaneous=True)
         wnl = symbols('dtq'+label)
         # edge data
         data = {'label': wnl,
diff --git a/pyphs/dictionary/transducers/_pickup.py b/pyphs/dictionary/transducers/_pickup.py
index 353e1e8..57353a6 100644
--- a/pyphs/dictionary/transducers/_pickup.py
+++ b/pyphs/dictionary/transducers/_pickup.py
@@ -58,7 +58,7 @@ class Pickup(Graph):
             return 2*Rb**2*dmu*Rp*((f1-2*Lh**2)/f1**2 -
                                    (f2-2*Lh**2)/f2**2) * dtq
 
-        falpha = (f(q, dtq)**-1).subs(dicpars)
+        falpha = (f(q, dtq)**-1).subs(dicpars, simultaneous=True)
         self += Gyrator(label+'MecToMag',
                         (self.datum, NCcoil, self.datum, NMagnet),
                         alpha=(label+'f', falpha))
-- 
2.43.0


From 1f72eaf9b12e260c64e0008b35f18ee7c3a327e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 24/71] fix: documented default parameters of components were
 refused or left undefined

---
 pyphs/dictionary/electronics/_capacitor.py    | 2 +-
 pyphs/dictionary/electronics/_inductor.py     | 2 +-
 pyphs/dictionary/electronics/_source.py       | 8 +++++---
 pyphs/dictionary/mechanics_dual/_source.py    | 8 +++++---
 pyphs/dictionary/mechanics_dual/_stiffness.py | 4 +++-
 pyphs/dictionary/thermics/_transfers.py       | 6 +++---
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyphs/dictionary/electronics/_capacitor.py b/pyphs/dictionary/electronics/_capacitor.py
index 9f4dc56..b44a70e 100644
--- a/pyphs/dictionary/electronics/_capacitor.py
+++ b/pyphs/dictionary/electronics/_capacitor.py
@@ -52,7 +52,7 @@ class Capacitor(StorageLinear):
                 'desc': 'Linear capacitor.',
                 'nodesdesc': "Capacitor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['C', 'Capacitance', 'F', '1e-9']],
+                'parameters': [['C', 'Capacitance', 'F', 1e-9]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 1e06090..8a64724 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -32,7 +32,7 @@ class Inductor(StorageLinear):
                 'desc': 'Linear inductor.',
                 'nodesdesc': "Inductor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['L', 'Inductance', 'H', '1e-3']],
+                'parameters': [['L', 'Inductance', 'H', 1e-3]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_source.py b/pyphs/dictionary/electronics/_source.py
index 81bf930..7ed5501 100644
--- a/pyphs/dictionary/electronics/_source.py
+++ b/pyphs/dictionary/electronics/_source.py
@@ -16,16 +16,18 @@ from ..electronics import metadata as dicmetadata
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('voltage', 'current')
         if type_ == 'voltage':
             ctrl = 'f'
         elif type_ == 'current':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
+        parameters.update({'ctrl': ctrl})
 #        kwargs.update({'units': units})
-        Port.__init__(self, label, nodes, **kwargs)
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Electrical source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_source.py b/pyphs/dictionary/mechanics_dual/_source.py
index cfe5aa2..61fd872 100644
--- a/pyphs/dictionary/mechanics_dual/_source.py
+++ b/pyphs/dictionary/mechanics_dual/_source.py
@@ -16,15 +16,17 @@ from pyphs.misc.rst import equation
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('force', 'velocity')
         if type_ == 'force':
             ctrl = 'f'
         elif type_ == 'velocity':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
-        Port.__init__(self, label, nodes, **kwargs)
+        parameters.update({'ctrl': ctrl})
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Mechanical Source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_stiffness.py b/pyphs/dictionary/mechanics_dual/_stiffness.py
index 75cabc2..626a395 100644
--- a/pyphs/dictionary/mechanics_dual/_stiffness.py
+++ b/pyphs/dictionary/mechanics_dual/_stiffness.py
@@ -16,8 +16,10 @@ from pyphs.misc.rst import equation
 class Stiffness(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'K'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': False,
diff --git a/pyphs/dictionary/thermics/_transfers.py b/pyphs/dictionary/thermics/_transfers.py
index 285e4e8..2f6a2b7 100644
--- a/pyphs/dictionary/thermics/_transfers.py
+++ b/pyphs/dictionary/thermics/_transfers.py
@@ -18,9 +18,9 @@ class Transfer(DissipativeNonLinear):
 
     def __init__(self, label, nodes, **kwargs):
         # parameters
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         pars = ['R', ]
-        for par in pars:
-            assert par in kwargs.keys()
         R, = symbols(pars)
 
         # dissipation variable
@@ -57,7 +57,7 @@ class Transfer(DissipativeNonLinear):
                                          [edge1,
                                           edge2],
                                          w, [z1, z2],
-                                         **kwargs)
+                                         **parameters)
 
     metadata = {'title': 'Thermal transfer',
                 'component': 'Transfer',
-- 
2.43.0


From e83d199624f1ebbdb3d8e2269ed0f91ae4446219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 25/71] fix: grid current of the triode does not depend on the
 grid voltage

---
 pyphs/dictionary/electronics/_triode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..ba06ad8 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -48,7 +48,7 @@ class Triode(DissipativeNonLinear):
             """
             dissipation function for edge 'e = (g->k)'
             """
-            expr = indicator(vgk-Va)/Rgk
+            expr = indicator(vgk-Va)*(vgk-Va)/Rgk
             return expr
 
         def ipk():
-- 
2.43.0


From e1f0eb8258fce7ee9962f5a5c29132f71225c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:25 +0000
Subject: [PATCH 26/71] fix: documented parameter 'integrate' of the
 piecewise-linear storage

---
 pyphs/dictionary/pwl/_storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/dictionary/pwl/_storage.py b/pyphs/dictionary/pwl/_storage.py
index 35ce757..f1708e5 100644
--- a/pyphs/dictionary/pwl/_storage.py
+++ b/pyphs/dictionary/pwl/_storage.py
@@ -27,6 +27,8 @@ class Storage(Graph):
 
         assert 'file' in kwargs, "pwl.storage component need 'file' argument"
         path = kwargs.pop('file')
+        # documented name of parameter 'integ' of pwl_func
+        kwargs.setdefault('integ', kwargs.pop('integrate', False))
         vals = np.vstack(map(np.array, data_generator(path)))
         x_vals = vals[0, :]
         h_vals = vals[1, :]
-- 
2.43.0


From d5de28cba06a20fd2c31dc6e00e8cf290ba1cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 27/71] fix: move of a storage left the matrices of the linear
 part in the previous order

---
 pyphs/core/structure/moves.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyphs/core/structure/moves.py b/pyphs/core/structure/moves.py
index 88061ba..a56fa5a 100644
--- a/pyphs/core/structure/moves.py
+++ b/pyphs/core/structure/moves.py
@@ -97,6 +97,13 @@ def move_stor(core, indi, indf):
     if core._dxH is not None:
         core._dxH = [core._dxH[el] for el in new_indices]
     moveCoreMcolnrow(core, indi, indf)
+    nxl = core.Q.shape[0]
+    if indi < nxl and indf < nxl:
+        core.Q = movesquarematrixcolnrow(core.Q, indi, indf)
+        core.bl = [core.bl[el] for el in myrange(nxl, indi, indf)]
+    elif indi < nxl or indf < nxl:
+        core.Q = core.Q[:0, :0]  # Set Matrix to zero
+        core.bl = []
 
 
 def move_diss(core, indi, indf):
-- 
2.43.0


From 15107ee6e35cb9a6e2b79871d4320c3c9af35462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 28/71] fix: plate current of the triode is not a number for
 negative plate voltages

---
 pyphs/dictionary/electronics/_triode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index ba06ad8..48827c6 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -60,7 +60,8 @@ class Triode(DissipativeNonLinear):
             e3 = Kp*(mu**-1 + e1/e2)
             exprE = (vpk/Kp)*sympy.log(1 + sympy.exp(e3))
             expr = exprE**Ex * (1 + sign(exprE)) / Kg
-            return expr.evalf()
+            # exprE has the sign of vpk (and exprE**Ex is not real if negative)
+            return sympy.Piecewise((0., vpk <= 0.), (expr.evalf(), True))
 
         z = [ipk()+(vpk+vgk)*GMIN, igk()+(vpk+vgk)*GMIN]
 
-- 
2.43.0


From fe17330c81af9238a7e8a7317721ddff292130d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 29/71] fix: ratio of the transformers in the fractional
 derivators

---
 pyphs/dictionary/fraccalc/fractional_derivators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/fraccalc/fractional_derivators.py b/pyphs/dictionary/fraccalc/fractional_derivators.py
index 245b3d3..7fb2c65 100644
--- a/pyphs/dictionary/fraccalc/fractional_derivators.py
+++ b/pyphs/dictionary/fraccalc/fractional_derivators.py
@@ -65,7 +65,7 @@ class Fracderec(Graph):
 
             self += Transformer(label+'alpha'+str(n),
                                 (N1, Nend, N2, datum),
-                                alpha=Rn**-1)
+                                alpha=Rn)
 
     metadata = {'title': 'Effort-controlled fractional derivator',
                 'component': 'Fracderec',
@@ -134,7 +134,7 @@ class Fracderfc(Graph):
             Nend = nodes[1]
             self += Transformer(label+'alpha'+str(n),
                                 (N1, N2, N3, datum),
-                                alpha=Rn)
+                                alpha=Rn**-1)
             N1 = N2
     metadata = {'title': 'Flux-controlled fractional derivator',
                 'component': 'Fracderfc',
-- 
2.43.0


From b15f7f39435d2b63712264e2eecb3e079a2dcb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:26 +0000
Subject: [PATCH 30/71] fix: projection on the modes of the cantilever beam
 with the documented transformer

---
 pyphs/dictionary/beams/_cantilever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/beams/_cantilever.py b/pyphs/dictionary/beams/_cantilever.py
index 6940fe4..df5da61 100644
--- a/pyphs/dictionary/beams/_cantilever.py
+++ b/pyphs/dictionary/beams/_cantilever.py
@@ -241,8 +241,8 @@ class Cantilever(Graph):
 
                 # define transfomer
                 transfo = Transformer(label_n+str(i),
-                                      (A1, A2,
-                                      datum, label+'M'+str(i)),
+                                      (label+'M'+str(i), datum,
+                                       A1, A2),
                                       alpha=(label_n+'alpha'+str(i), o))
                 self += transfo
 
-- 
2.43.0


From ad4c5f3b7674bfd43f56f13fc64c7b3a6df14ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 31/71] fix: documented defaults of the electronic inductor and
 resistor

---
 pyphs/dictionary/electronics/_inductor.py | 4 +++-
 pyphs/dictionary/electronics/_resistor.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 8a64724..ea635d7 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -18,7 +18,9 @@ class Inductor(StorageLinear):
     def __init__(self, label, nodes, **kwargs):
 
         par_name = 'L'
-        par_val = kwargs[par_name]
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': True,
diff --git a/pyphs/dictionary/electronics/_resistor.py b/pyphs/dictionary/electronics/_resistor.py
index 9b5247c..036fa68 100644
--- a/pyphs/dictionary/electronics/_resistor.py
+++ b/pyphs/dictionary/electronics/_resistor.py
@@ -16,10 +16,12 @@ from ..electronics import metadata as dicmetadata
 class Resistor(DissipativeLinear):
 
     def __init__(self, label, nodes, **kwargs):
-        if kwargs['R'] is None:
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        if parameters['R'] is None:
             coeff = 0
         else:
-            coeff = kwargs['R']
+            coeff = parameters['R']
         DissipativeLinear.__init__(self, label, nodes, coeff=coeff)
 
     metadata = {'title': 'Resistor',
-- 
2.43.0


From 0b3fb753f22712ef2d4d36f697a05493b6cf33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:50 +0000
Subject: [PATCH 32/71] fix: rows written from iterables longer than the
 recorded signal

---
 pyphs/numerics/simulations/h5data/tools.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/tools.py b/pyphs/numerics/simulations/h5data/tools.py
index bf2db62..2937806 100644
--- a/pyphs/numerics/simulations/h5data/tools.py
+++ b/pyphs/numerics/simulations/h5data/tools.py
@@ -62,17 +62,14 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
     if cslice is None:
         cslice = slice(None)
         ncols = dataset.shape[1]
-    elif cslice.stop is None:
-        ncols = dataset.shape[1]
     else:
-        ncols = len(range(cslice.stop)[cslice])
+        ncols = len(range(*cslice.indices(dataset.shape[1])))
 
     if rslice is None:
         nrows = dataset.shape[0]
-    elif rslice.stop is None:
-        nrows = dataset.shape[1]
     else:
-        nrows = len(range(rslice.stop)[rslice])
+        rows = range(*rslice.indices(dataset.shape[0]))
+        nrows = len(rows)
 
     chunksize = min((chunksize, nrows))
     offset = 0
@@ -83,7 +80,7 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
         if chunksize <= nrows-offset:
             buffer_rslice = slice(offset, offset+chunksize)
             if rslice is not None:
-                buffer_rslice = range(rslice.stop)[rslice][buffer_rslice]
+                buffer_rslice = rows[buffer_rslice]
             count = chunksize * ncols
             buffer = np.fromiter(flattened_iterable, dataset.dtype, count)
             dataset[buffer_rslice, cslice] = buffer.reshape(chunksize, ncols)
@@ -93,8 +90,8 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
         else:
             buffer_rslice = slice(offset, None)
             if rslice is not None:
-                buffer_rslice = range(rslice.stop)[rslice][buffer_rslice]
+                buffer_rslice = rows[buffer_rslice]
             count = (nrows-offset) * ncols
-            buffer = np.fromiter(flattened_iterable, dataset.dtype)
+            buffer = np.fromiter(flattened_iterable, dataset.dtype, count)
             dataset[buffer_rslice, cslice] = buffer.reshape(-1, ncols)
             break
-- 
2.43.0


From a87a1904e741f78ec1ce7993182f413bbac5aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:50 +0000
Subject: [PATCH 33/71] fix: sequences of parameters given as generators or
 flat lists

---
 pyphs/numerics/simulations/h5data/h5data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 33c6e11..73ce979 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -338,7 +338,7 @@ or an integer nt (number of time steps).'
 
         # if sequ is not provided, a sequence of [[0]*ny]*nt is assumed
         ny = self.method.dims.y()
-        if isinstance(sequ, list):
+        if isinstance(sequ, (list, tuple)):
             sequ = numpy.array(sequ)
         elif hasattr(sequ, '__next__'):
             sequ = numpy.array(list(sequ))
@@ -355,10 +355,12 @@ or an integer nt (number of time steps).'
 
         # if seqp is not provided, a sequence of [[0]*np]*nt is assumed
         np = self.method.dims.p()
+        if isinstance(seqp, (list, tuple)):
+            seqp = numpy.array(seqp)
+        elif hasattr(seqp, '__next__'):
+            seqp = numpy.array(list(seqp))
         if seqp is None:
             seqp = [[0]*np for _ in range(nt)]
-        if isinstance(seqp, list):
-            seqp = numpy.array(seqp)
         elif len(seqp.shape) == 1:
             if not np == 1:
                 text = 'Expected parameter shape is ({}, {}), got ({}, )'
-- 
2.43.0


From ebdbbdbfd3828f22f3f0cabe310d102d433b7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:50 +0000
Subject: [PATCH 34/71] fix: time window of the data set from the times of
 samples

---
 pyphs/numerics/simulations/h5data/h5data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 73ce979..6103b08 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -167,10 +167,12 @@ class H5Data(object):
             Time index.
 
         """
+        # t may be the time of a sample up to rounding errors
+        i = int(numpy.floor(round(t*self.fs, 6)))
         if m == 'min':
-            return int(t*self.fs)
+            return i
         elif m == 'max':
-            return int(t*self.fs)+1
+            return i+1
         else:
             raise ValueError('unknown m={}'.format(m))
 
@@ -218,7 +220,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
-- 
2.43.0


From f444bb18c9a38585d9f3420d8e5c6d7c3af2641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:50 +0000
Subject: [PATCH 35/71] fix: negative indices and indices out of range in data
 readers

---
 pyphs/numerics/simulations/h5data/h5data.py | 23 ++++++++-------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 6103b08..2c4d28c 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -643,7 +643,8 @@ or an integer nt (number of time steps).'
                            self.step)
 
         elif isinstance(tslice, int):
-            tslice = slice(tslice, tslice+1, None)
+            i = range(self.nt)[tslice]
+            tslice = slice(i, i+1, None)
 
         if tslice.start is None:
             start = self.start
@@ -657,7 +658,8 @@ or an integer nt (number of time steps).'
             step = self.step
         else:
             step = tslice.step
-        return slice(start, stop, step)
+        # negative indices and indices out of the record
+        return slice(*slice(start, stop, step).indices(self.nt))
 
     def _tuple2slice(self, vname, vslice):
         """
@@ -670,20 +672,13 @@ or an integer nt (number of time steps).'
 
         # convert index in var to index in global dataset
         elif isinstance(vslice, int):
-            vslice += self.inds[vname][0]
+            vslice = range(*self.inds[vname])[vslice]
 
-        # custom variable slice
+        # custom variable slice, restricted to the components of the variable
         else:
-            if vslice.start is not None:
-                start = vslice.start+self.inds[vname][0]
-            else:
-                start = self.inds[vname][0]
-            if vslice.stop is not None:
-                stop = vslice.stop+self.inds[vname][0]
-            else:
-                stop = self.inds[vname][1]
-            step = vslice.step
-            vslice = slice(start, stop, step)
+            offset = self.inds[vname][0]
+            start, stop, step = vslice.indices(self.dims[vname])
+            vslice = slice(start+offset, stop+offset, step)
 
         return vslice
 
-- 
2.43.0


From d8024a696f7b165b95ec827bf44a188192dc4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:51 +0000
Subject: [PATCH 36/71] fix: decimated variation of energy in data

---
 pyphs/numerics/simulations/h5data/h5data.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 2c4d28c..f591794 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -1388,11 +1388,18 @@ or an integer nt (number of time steps).'
 
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
         if DtE == 'deltaH':
-            last_dtH_value = numpy.einsum('ti,ti->t',
-                                          self['dxH', tslice.stop-1],
-                                          self['dtx', tslice.stop-1])/self.fs
-            output = numpy.ediff1d(self.E(tslice=tslice),
-                                   to_end=last_dtH_value)*self.fs/tslice.step
+            indices = range(tslice.start, tslice.stop, tslice.step)
+            last = indices[-1]
+            # energy at every index from the first to the one after the last
+            E = self.E(tslice=slice(indices[0], min(last+2, self.nt), 1))
+            output = numpy.diff(E)*self.fs
+            if last == self.nt-1:
+                # H is not known after the last time step
+                last_value = numpy.einsum('ti,ti->t',
+                                          self['dxH', last],
+                                          self['dtx', last])
+                output = numpy.concatenate((output, last_value))
+            output = output[::tslice.step]
 
         # Compute DtE = dxh.T * dtx
         elif DtE == 'DxhDtx':
-- 
2.43.0


From 1a23bd1d70b46421b0a7a374d800125e08df58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:22 +0000
Subject: [PATCH 37/71] fix: simulations changed the method and the reading
 options of other simulations

---
 pyphs/numerics/simulations/simulation.py | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..449edb9 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -90,6 +90,16 @@ def execute_bash(text):
             system_call(line.split())
 
 
+def copy_method(method):
+    """
+    Return a shallow copy of the method with its own dictionary of parameters.
+    """
+    output = method.__class__.__new__(method.__class__)
+    output.__dict__.update(method.__dict__)
+    output.subs = method.subs.copy()
+    return output
+
+
 # -----------------------------------------------------------------------------
 # Simulation class
 
@@ -141,7 +151,9 @@ class Simulation(object):
 
         """
 
-        self.method = method
+        # the options and parameters of the simulation are changed on a copy, so
+        # that the given method can be used by other simulations
+        self.method = copy_method(method)
         if label is None:
             label = method.label
         self.label = label
@@ -165,6 +177,9 @@ class Simulation(object):
                     raise AttributeError(text)
         self.config.update(config)
 
+        # Load options are changed by the data object
+        self.config['load'] = dict(self.config['load'])
+
         # Rebuild method if parameters are differents
         self.init_method()
 
@@ -256,8 +271,12 @@ class Simulation(object):
         Build the numerical method.
         """
         if self.config_method() != self.method.config:
-            self.method.__init__(self.method._core,
-                                 config=self.config_method())
+            subs = self.method.subs
+            self.method = self.method.__class__(self.method._core,
+                                                config=self.config_method(),
+                                                label=self.method.label)
+            # keep the parameters changed since the construction of the method
+            self.method.subs.update(subs)
 
     # -------------------------------------------------------------------------
 
-- 
2.43.0


From e4f231689c4c816ead48634f9fbf8446103c4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 38/71] fix: initialization of a simulation did not reset the
 state nor apply new options and parameters

---
 .../numerical_core/_numerical_core.py         | 14 ++++++++++
 pyphs/numerics/simulations/simulation.py      | 28 +++++++++++--------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/pyphs/numerics/numerical_core/_numerical_core.py b/pyphs/numerics/numerical_core/_numerical_core.py
index cf3013f..08fb3a3 100644
--- a/pyphs/numerics/numerical_core/_numerical_core.py
+++ b/pyphs/numerics/numerical_core/_numerical_core.py
@@ -87,11 +87,24 @@ class Numeric(object):
                 else:
                     set_func(val)
 
+    def reset(self):
+        """
+        Set every quantities of self to their values after construction.
+
+        """
+        self.args[:] = 0.
+        self.init()
+        for name in self._evals_names:
+            getattr(self, 'set_' + name)(getattr(self, name + '_eval')())
+
     def build(self):
 
         if VERBOSE >= 1:
             print('Build numeric {}...'.format(self.label))
 
+        # ordered names of the numerical evaluations
+        self._evals_names = list()
+
         # init args values with 0
         self.args = numpy.array([0., ]*self.method.dims.args())
 
@@ -165,6 +178,7 @@ class Numeric(object):
         # build for sympy.expression
         else:
             self._build_func(name)
+        self._evals_names.append(name)
 
     def update(self, u=None, p=None):
         """
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 449edb9..1018f2a 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -319,9 +319,22 @@ class Simulation(object):
 
         if config is None:
             config = {}
+        for k in config.keys():
+            if k not in self.config.keys():
+                text = 'Configuration key "{0}" unknown.'.format(k)
+                raise AttributeError(text)
+
+        if any(config[k] != self.config[k] for k in config.keys()):
+            self.config.update(config)
+            self.config['load'] = dict(self.config['load'])
+            self.init_method()
+            init_numeric = True
 
         if subs is None:
             subs = {}
+        elif self.config['lang'] == 'python':
+            # parameters are replaced by their values in the numerical functions
+            init_numeric = True
         else:
             for k in subs.keys():
                 if k not in self.method.subs.keys():
@@ -332,12 +345,6 @@ class Simulation(object):
         if init_parameters:
             self.init_parameters()
 
-        c = self.config_method()
-        c.update(self.config_numeric())
-        c.update(self.config_simulation())
-
-        c.update(config)
-
         if inits is not None:
             equal = True
             for k in inits.keys():
@@ -349,14 +356,11 @@ class Simulation(object):
                 self.inits.update(inits)
                 init_numeric = True
 
-        if any([self.config[k] != c[k] for k in
-                list(self.config_numeric().keys()) +
-                list(self.config_method().keys())]):
-            self.config.update(c)
-            self.init_method()
-
         if init_numeric:
             self.init_numericalCore()
+        elif self.config['lang'] == 'python':
+            # start again from the initial values
+            self.nums.reset()
 
         self.data.init_data(nt, sequ=u, seqp=p)
 
-- 
2.43.0


From 037e27bf87e7014f6c8edff5460f84adf26a8537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 39/71] fix: single precision initial values in generated C++

---
 pyphs/numerics/cpp/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 7a4a664..c14755f 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -213,7 +213,7 @@ def _str_args_init_data(method, name):
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
                     c = ccode(expr, dereference=dereference(method))
-                    data = 'float({0}), '.format(c)
+                    data = '{0}({1}), '.format(CONFIG_CPP['float'], c)
             init_data += data
     if crop:
         init_data = init_data[:-2]
-- 
2.43.0


From 564a6b8d2dbbe349fe90928cef87c41a6a1b91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:40 +0000
Subject: [PATCH 40/71] fix: misaligned inputs in generated C++ simulation

---
 pyphs/numerics/cpp/simu2cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/simu2cpp.py b/pyphs/numerics/cpp/simu2cpp.py
index 77736fd..61f64fc 100644
--- a/pyphs/numerics/cpp/simu2cpp.py
+++ b/pyphs/numerics/cpp/simu2cpp.py
@@ -100,7 +100,7 @@ def _str_updateInputs(simu, objlabel):
         dim = len(geteval(simu.method, name))
         if dim > 0:
             temp = objlabel.lower(), name, CONFIG_CPP['float'], dim
-            updateInputs += "\n{0}.set_{1}((Matrix<double, {3}, 1> &)mystruct.{1});".format(*temp)
+            updateInputs += "\n{0}.set_{1}(Map<Matrix<{2}, {3}, 1>>(mystruct.{1}));".format(*temp)
     return indent(indent(updateInputs))
 
 
-- 
2.43.0


From 78ea6682d9bfb30b918a643080bfa1ad2abc798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 41/71] fix: several sets of parameters in generated C++

---
 pyphs/numerics/cpp/method2cpp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index bbeae21..21f53e0 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -362,7 +362,10 @@ const {0} subs[{1}][{2}]""".format(CONFIG_CPP['float'], nsubs, npars) + """ = {
                 # Write value
                 files['cpp'] += str(float(s[k])) + ', '
             # Close brackets
-            files['cpp'] = files['cpp'][:-2] + """},
+            files['cpp'] = files['cpp'][:-2] + """},"""
+
+        # Close array
+        files['cpp'] += """
 };"""
 
 
-- 
2.43.0


From 81e8746bcf95f346208f1d67a21c7c3d750d08a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 42/71] fix: initial values of the caller changed by the
 generation of C++

---
 pyphs/numerics/cpp/method2cpp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 21f53e0..2d19532 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -118,6 +118,8 @@ def method2cpp(method, objlabel=None, path=None,
 
     if inits is None:
         inits = {}
+    else:
+        inits = dict(inits)
 
     if config is None:
         config = {}
-- 
2.43.0


From 5709421e9d8d13071d4b73bf8ae4b0111417ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 43/71] fix: generation of C++ failed on expressions undefined
 at the origin

---
 pyphs/numerics/cpp/method2cpp.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 2d19532..3a97224 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -40,7 +40,7 @@ def init_eval(method, name):
         elif name == 'y':
             obj = copy.copy(geteval(method, 'output'))
             sobj = substitute(obj, method.subscpp)
-            sobj = numpy.asarray(sobj, dtype=float)
+            sobj = asfloats(sobj)
         else:
             obj = copy.copy(geteval(method, name))
             sobj = substitute(obj, method.subscpp)
@@ -54,12 +54,26 @@ def init_eval(method, name):
                     text = 'Missing substitution symbols: {}'.format(freesymbs)
                     raise AttributeError(text)
             if not isinstance(sobj, (float, list)):
-                sobj = numpy.asarray(sobj.tolist(), dtype=float)
-            else:
-                sobj = numpy.asarray(sobj, dtype=float)
+                sobj = sobj.tolist()
+            sobj = asfloats(sobj)
         method.inits_evals[name] = sobj
 
 
+def asfloats(obj):
+    """
+    Return the array of floats from a scalar, a list or a list of lists of
+    sympy numbers. Undefined values (e.g. 1/p with p=0) are set to nan.
+    """
+    def asfloat(e):
+        try:
+            return float(e)
+        except TypeError:
+            return numpy.nan
+    array = numpy.asarray(obj, dtype=object)
+    values = [asfloat(e) for e in array.flatten()]
+    return numpy.array(values, dtype=float).reshape(array.shape)
+
+
 def eval_op(method, op):
 
     def evaluate(args):
-- 
2.43.0


From 23a4998c91bea8dd3557cddd3abd0e409614d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 44/71] fix: constants stale after set_sampleRate in generated
 C++

---
 pyphs/numerics/cpp/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index d7ce0d6..3bb75a6 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -173,9 +173,11 @@ def _str_mat_func_update(method, name, objlabel):
     mat = types.matrix_types[0](getattr(method, name + '_expr'))
     update_h = '\nvoid {0}_update();'.format(name)
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
+    # the sample rate can be changed after construction
+    args = list(method.args()) + [method.fs]
     for m, n, expr in mat.row_list():
             symbs = expr.free_symbols
-            if any(symb in method.args() for symb in symbs):
+            if any(symb in args for symb in symbs):
                 c = ccode(expr, dereference=dereference(method))
                 update_cpp += '\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)
     update_cpp += '\n};'
-- 
2.43.0


From e1568ffc60c951d47fb18af84fa96aefe2343974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 45/71] fix: failure of the C++ simulation was not reported

---
 pyphs/numerics/simulations/simulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 1018f2a..26c690d 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -42,10 +42,7 @@ def system_call(cmd, **popenArgs):
     popenArgs['stderr'] = subprocess.STDOUT
     popenArgs['stdout'] = subprocess.PIPE
 
-    try:
-        popenArgs.pop('check')
-    except KeyError:
-        pass
+    check = popenArgs.pop('check', False)
 
     if VERBOSE >= 1:
         pri = print
@@ -63,6 +60,8 @@ def system_call(cmd, **popenArgs):
         if(retcode is not None):
             break
 
+    if check and retcode:
+        raise subprocess.CalledProcessError(retcode, cmd)
 
 #    p = subprocess.Popen(cmd, shell=shell,
 #                         stdout=subprocess.PIPE,
@@ -558,10 +557,11 @@ class Simulation(object):
 #            process = system_call(['./bin/%s' % self.label, ], **sp_config)
 
         cmd = './bin/{0}'.format(self.label)
-        self.system_call(cmd, **sp_config)
-
-        # go back to work folder
-        os.chdir(self.work_path)
+        try:
+            self.system_call(cmd, **sp_config)
+        finally:
+            # go back to work folder
+            os.chdir(self.work_path)
 
     @staticmethod
     def system_call(cmd, **kwargs):
-- 
2.43.0


From 1394719439484533397282041599dfeefae1bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 46/71] fix: cycles of the signal generator

---
 pyphs/misc/signals/synthesis/synthesis_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index df4529e..e0af75c 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -302,6 +302,7 @@ to PWM.
     deb = background_noise(parameters['ndeb'])
 
     # cycles
+    cycles = list()
     for c in range(parameters['ncycles']):
         if parameters['which'] == 'zero':
             Sig = constant(parameters['non'], 0.)
@@ -349,10 +350,12 @@ to PWM.
             cycle_deb += parameters['offset']
             cycle_end += parameters['offset']
 
+        cycles += [cycle_deb, cycle_end]
+
     # end
     end = background_noise(parameters['nend'])
 
-    return hstack((deb, cycle_deb, cycle_end, end))
+    return hstack([deb] + cycles + [end])
 
 
 def build_parameters(**kwargs):
-- 
2.43.0


From ca9211f76f24a63524171ad63a671f3964c69ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 47/71] fix: number of samples of the signal generator

---
 pyphs/misc/signals/synthesis/synthesis_array.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index e0af75c..52899c5 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -383,12 +383,16 @@ def build_parameters(**kwargs):
     parameters.setdefault('phi', -90)
     parameters.setdefault('method', 'linear')
 
-    parameters['nsig'] = int(parameters['tsig']*parameters['fs'])
-    parameters['ndeb'] = int(parameters['tdeb']*parameters['fs'])
-    parameters['nend'] = int(parameters['tend']*parameters['fs'])
-    parameters['non'] = int(parameters['nsig']*parameters['cycle_ratio'])
+    def number(value):
+        # number of samples, up to the rounding of the product (0.29*100 < 29)
+        return int(round(value, 6))
+
+    parameters['nsig'] = number(parameters['tsig']*parameters['fs'])
+    parameters['ndeb'] = number(parameters['tdeb']*parameters['fs'])
+    parameters['nend'] = number(parameters['tend']*parameters['fs'])
+    parameters['non'] = number(parameters['nsig']*parameters['cycle_ratio'])
     parameters['noff'] = parameters['nsig'] - parameters['non']
 
-    parameters['na'], parameters['nd'] = (int(parameters['attack_ratio']*parameters['non']),
-                                          int(parameters['decay_ratio']*parameters['non']))
+    parameters['na'], parameters['nd'] = (number(parameters['attack_ratio']*parameters['non']),
+                                          number(parameters['decay_ratio']*parameters['non']))
     return parameters
-- 
2.43.0


From d40ebc8f43b229a1c7b6518fef805dcb8bc2371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 48/71] fix: number of samples in wave files

---
 pyphs/misc/signals/waves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/misc/signals/waves.py b/pyphs/misc/signals/waves.py
index 7efd7cd..2a950ac 100644
--- a/pyphs/misc/signals/waves.py
+++ b/pyphs/misc/signals/waves.py
@@ -51,7 +51,7 @@ list or a generator. Got {0!s}'.format(type(sig))
         sig = list(sig)
 
     nsig = len(sig)
-    nfades = int(timefades*fs_sig)
+    nfades = int(round(timefades*fs_sig, 6))
     if nsig >= 2*nfades:
         fadein = [n/(nfades) for n in range(nfades)]
         fadeout = [(nfades-1-n)/(nfades) for n in range(nfades)]
@@ -64,7 +64,7 @@ list or a generator. Got {0!s}'.format(type(sig))
 
     elif not fs_out == fs_sig:
         print('Resampling from {}Hz to {}Hz...'.format(fs_sig, fs_out))
-        sig = resample(sig, int(nsig*fs_out*fs_sig**-1))
+        sig = resample(sig, int(round(nsig*fs_out/float(fs_sig), 6)))
 
     if not path.endswith('.wav'):
         path += '.wav'
-- 
2.43.0


From 4cbf87c36a7dcddd1d918aa29f002490764bfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:56 +0000
Subject: [PATCH 49/71] fix: length of low-passed short signals

---
 pyphs/misc/signals/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/signals/processing.py b/pyphs/misc/signals/processing.py
index 796489a..864d95d 100644
--- a/pyphs/misc/signals/processing.py
+++ b/pyphs/misc/signals/processing.py
@@ -44,4 +44,6 @@ def lowpass(s, fc, tbw=1e-2):
     h = h * w
     # Normalize to get unity gain.
     h = h / sum(h)
-    return convolve(s, h, 'same')
+    s = list(s)
+    # same number of samples as the input, even if shorter than the filter
+    return convolve(s, h, 'full')[(N-1)//2:(N-1)//2+len(s)]
-- 
2.43.0


From c8aed2352667ae3391c0ccc1f61bc230b7ac7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 50/71] fix: generated C++ did not compile for symbols named as
 its methods (x, w, u...)

---
 pyphs/numerics/cpp/arguments.py  | 19 +++++++++----------
 pyphs/numerics/cpp/functions.py  | 11 +++++------
 pyphs/numerics/cpp/method2cpp.py |  6 +++---
 pyphs/numerics/cpp/tools.py      | 20 ++++++++++++++++++++
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index c14755f..80a7d1b 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -8,10 +8,9 @@ Created on Sat Dec 31 12:03:17 2016
 from __future__ import absolute_import, division, print_function
 
 from .tools import indent, matrix_type
-from sympy.printing import ccode
 from pyphs.core.tools import types
 from pyphs.config import CONFIG_CPP
-from .tools import dereference, linesplit
+from .tools import ccode, pointer, linesplit
 
 
 def append_args(method, files, objlabel):
@@ -45,7 +44,7 @@ def _append_args_pointers(method, files):
             pass
         else:
             files['h']['private'] += \
-                '\n{2} * {0} = & args({1}, 0);'.format(str(arg),
+                '\n{2} * {0} = & args({1}, 0);'.format(pointer(arg),
                                                        i,
                                                        CONFIG_CPP['float'])
 
@@ -70,7 +69,7 @@ def _append_args_accessors_vector(method, files, objlabel):
             indent("\nstatic vector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
         for i, symb in enumerate(arg):
             files['cpp']['public'] += \
-                indent("\nv[{0}] = *{1};".format(i, str(symb)))
+                indent("\nv[{0}] = *{1};".format(i, pointer(symb)))
         files['cpp']['public'] += indent("\nreturn v;")
         files['cpp']['public'] += "\n}"
 
@@ -99,7 +98,7 @@ def _append_args_accessors_matrix(method, files, objlabel):
             indent('\nstatic {0} m;'.format(matrix_type(dim0, dim1)))
         for i, symb in enumerate(arg):
             files['cpp']['public'] += \
-                indent("\nm({0}, 0) = *{1};".format(i, str(symb)))
+                indent("\nm({0}, 0) = *{1};".format(i, pointer(symb)))
         files['cpp']['public'] += indent("\nreturn m;")
         files['cpp']['public'] += "\n}"
 
@@ -127,7 +126,7 @@ def _append_args_mutators_matrix(method, files, objlabel):
         for i, symb in enumerate(arg):
             if not symb in method.subs.keys():
                 files['cpp']['public'] += \
-                    '\n'+indent("*{0} = m({1}, 0);".format(str(symb), i))
+                    '\n'+indent("*{0} = m({1}, 0);".format(pointer(symb), i))
         files['cpp']['public'] += "\n}"
 
 
@@ -149,7 +148,7 @@ def _append_args_mutators_vectors(method, files, objlabel):
         for i, symb in enumerate(arg):
             if not symb in method.subs.keys():
                 files['cpp']['public'] += "\n" + \
-                    indent("*{0} = v[{1}];".format(str(symb), i))
+                    indent("*{0} = v[{1}];".format(pointer(symb), i))
         files['cpp']['public'] += "\n}"
 
 
@@ -175,7 +174,7 @@ def _append_args_mutators_elements(method, files, objlabel):
                     files['cpp']['public'] += "\n" + \
                         indent("if(index == {0})".format(i)) + ' {' + \
                         "\n" + \
-                        indent(indent("*{0} = value;".format(str(symb)))) + \
+                        indent(indent("*{0} = value;".format(pointer(symb)))) + \
                         "\n" + \
                         indent('}')
                     start = False
@@ -183,7 +182,7 @@ def _append_args_mutators_elements(method, files, objlabel):
                     files['cpp']['public'] += "\n" + \
                         indent("else if(index == {0})".format(i)) + ' {' + \
                         "\n" + \
-                        indent(indent("*{0} = value;".format(str(symb)))) + \
+                        indent(indent("*{0} = value;".format(pointer(symb)))) + \
                         "\n" + \
                         indent('}')
         files['cpp']['public'] += "\n}"
@@ -212,7 +211,7 @@ def _str_args_init_data(method, name):
                 expr = mat[m, n]
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
-                    c = ccode(expr, dereference=dereference(method))
+                    c = ccode(expr, method)
                     data = '{0}({1}), '.format(CONFIG_CPP['float'], c)
             init_data += data
     if crop:
diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index 3bb75a6..db09ea2 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -7,8 +7,7 @@ Created on Sat Dec 31 12:56:16 2016
 """
 from __future__ import absolute_import, division, print_function
 
-from sympy.printing import ccode
-from .tools import matrix_type, dereference, indent, linesplit
+from .tools import matrix_type, ccode, indent, linesplit
 from pyphs.core.tools import types
 from pyphs.config import VERBOSE, CONFIG_CPP
 
@@ -178,7 +177,7 @@ def _str_mat_func_update(method, name, objlabel):
     for m, n, expr in mat.row_list():
             symbs = expr.free_symbols
             if any(symb in args for symb in symbs):
-                c = ccode(expr, dereference=dereference(method))
+                c = ccode(expr, method)
                 update_cpp += '\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)
     update_cpp += '\n};'
     return update_h, update_cpp
@@ -190,7 +189,7 @@ def _str_scal_func_update(method, name, objlabel):
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     symbs = expr.free_symbols
     if any(symb in method.args for symb in symbs):
-        c = ccode(expr, dereference=dereference(method))
+        c = ccode(expr, method)
         update_cpp += '\n_{0} = {1};'.format(name, c)
     update_cpp += '\n};'
     return update_h, update_cpp
@@ -225,7 +224,7 @@ def _str_mat_func_init_data(method, name):
                 expr = mat[m, n]
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
-                    c = ccode(expr, dereference=dereference(method))
+                    c = ccode(expr, method)
 #                    data = 'float({0}), '.format(c)
                     data = '{0}, '.format(c)
             init_data += data
@@ -242,7 +241,7 @@ def _str_scal_func_init_data(method, name):
     if any(symb in method.args for symb in symbs):
         init_data += "0.;"
     else:
-        c = ccode(expr, dereference=dereference(method))
+        c = ccode(expr, method)
         init_data += '{};'.format(c)
     return init_data
 
diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 3a97224..59421c4 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -14,7 +14,7 @@ from .tools import indent, comment
 from pyphs.config import VERBOSE, CONFIG_NUMERIC, CONFIG_CPP
 from pyphs.misc.tools import geteval, get_time
 from pyphs.core.tools import substitute, free_symbols
-from .tools import linesplit
+from .tools import linesplit, pointer
 import pyphs
 
 import numpy
@@ -268,7 +268,7 @@ def append_parameters(method, files, objlabel):
     files['h']['private'] += linesplit + "\n// Sample Rate"
     files['h']['private'] += \
         '\n{0} sampleRate = {1};'.format(CONFIG_CPP['float'], method.subscpp[method.fs])
-    files['h']['private'] += '\nconst {0} * F_S = & sampleRate;'.format(CONFIG_CPP['float'])
+    files['h']['private'] += '\nconst {0} * {1} = & sampleRate;'.format(CONFIG_CPP['float'], pointer(method.fs))
     files['h']['public'] += linesplit + "\n// Sample Rate"
     files['h']['public'] += '\nvoid set_sampleRate(float &);'
     files['h']['public'] += '\nvoid set_sampleRate(double &);'
@@ -284,7 +284,7 @@ def append_parameters(method, files, objlabel):
     for i, sub in enumerate(method.subs):
         if not sub == method.fs:
             files['h']['private'] += \
-                '\nconst {2} * {0} = & subs[indexParameters][{1}];'.format(str(sub), i, CONFIG_CPP['float'])
+                '\nconst {2} * {0} = & subs[indexParameters][{1}];'.format(pointer(sub), i, CONFIG_CPP['float'])
 
 
 def parameters(subs, objlabel):
diff --git a/pyphs/numerics/cpp/tools.py b/pyphs/numerics/cpp/tools.py
index d2efeb8..d9514af 100644
--- a/pyphs/numerics/cpp/tools.py
+++ b/pyphs/numerics/cpp/tools.py
@@ -7,6 +7,7 @@ Created on Mon Jun 27 16:01:13 2016
 
 from __future__ import absolute_import, division, print_function
 import os
+import sympy
 from pyphs.config import CONFIG_CPP
 
 linesplit = '\n//' + '='*74
@@ -50,6 +51,25 @@ def dereference(method):
     return method.args() + [k for k in method.subscpp]
 
 
+def pointer(symbol):
+    """
+Return the name of the pointer to the value of a symbol in the generated code.
+The prefix avoids conflicts between the user's symbols and the names of methods,
+variables and keywords.
+    """
+    return 'symb_' + str(symbol)
+
+
+def ccode(expr, method):
+    """
+Return the C code for the evaluation of expr with the symbols in the method.
+    """
+    pointers = dict((s, sympy.Symbol(pointer(s), **s.assumptions0))
+                    for s in dereference(method))
+    return sympy.ccode(expr.xreplace(pointers),
+                       dereference=list(pointers.values()))
+
+
 def matrix_type(dim1, dim2):
     return "Matrix<{0},{1}, {2}>".format(CONFIG_CPP['float'], str(dim1), str(dim2))
 
-- 
2.43.0


From cf31f989df342b3ae7f64a136c603703081d7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:15 +0000
Subject: [PATCH 51/71] fix: accessors of generated C++ objects returned
 references to data shared by all objects

---
 pyphs/numerics/cpp/arguments.py  | 12 ++++++------
 pyphs/numerics/cpp/functions.py  |  6 +++---
 pyphs/numerics/cpp/operations.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 80a7d1b..0e4d93b 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -60,13 +60,13 @@ def _append_args_accessors_vector(method, files, objlabel):
         arg = getattr(method, name+'_expr')
         dim = len(arg)
         files['h']['public'] += \
-            '\nconst vector<{1}> & {0}_vector() const;'.format(name, CONFIG_CPP['float'])
+            '\nvector<{1}> {0}_vector() const;'.format(name, CONFIG_CPP['float'])
         files['cpp']['public'] += \
-            "\nconst vector<{0}> & ".format(CONFIG_CPP['float']) + \
+            "\nvector<{0}> ".format(CONFIG_CPP['float']) + \
             "{0}::{1}".format(objlabel, name) + \
             "_vector() const {"
         files['cpp']['public'] += \
-            indent("\nstatic vector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
+            indent("\nvector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
         for i, symb in enumerate(arg):
             files['cpp']['public'] += \
                 indent("\nv[{0}] = *{1};".format(i, pointer(symb)))
@@ -90,12 +90,12 @@ def _append_args_accessors_matrix(method, files, objlabel):
         else:
             dim1 = 1
         files['h']['public'] += \
-            '\nconst {0} & {1}() const;'.format(matrix_type(dim0, dim1), name)
+            '\n{0} {1}() const;'.format(matrix_type(dim0, dim1), name)
         files['cpp']['public'] += \
-            "\nconst {0} & {1}::{2}() const".format(matrix_type(dim0, dim1),
+            "\n{0} {1}::{2}() const".format(matrix_type(dim0, dim1),
                                             objlabel, name) + ' {'
         files['cpp']['public'] += \
-            indent('\nstatic {0} m;'.format(matrix_type(dim0, dim1)))
+            indent('\n{0} m;'.format(matrix_type(dim0, dim1)))
         for i, symb in enumerate(arg):
             files['cpp']['public'] += \
                 indent("\nm({0}, 0) = *{1};".format(i, pointer(symb)))
diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index db09ea2..a23c93a 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -127,11 +127,11 @@ def _str_scal_func_get(name, objlabel):
 def _str_mat_func_get_vector(method, name, objlabel):
     mat = types.matrix_types[0](getattr(method, name + '_expr'))
     mtype = 'vector<{0}>'.format(CONFIG_CPP['float'])
-    get_h = '\nconst {0} & {1}_vector() const;'.format(mtype, name)
-    get_cpp = '\nconst {0} & {1}::{2}_vector() const'.format(mtype, objlabel, name) + \
+    get_h = '\n{0} {1}_vector() const;'.format(mtype, name)
+    get_cpp = '\n{0} {1}::{2}_vector() const'.format(mtype, objlabel, name) + \
         ' {'
     dim = mat.shape[0]
-    get_cpp += indent("\nstatic vector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
+    get_cpp += indent("\nvector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
     for i in range(dim):
         get_cpp += indent("\nv[{0}] = _{1}({0}, 0);".format(i, name))
     get_cpp += indent("\nreturn v;")+"\n}"
diff --git a/pyphs/numerics/cpp/operations.py b/pyphs/numerics/cpp/operations.py
index fff8ab6..240e285 100644
--- a/pyphs/numerics/cpp/operations.py
+++ b/pyphs/numerics/cpp/operations.py
@@ -152,7 +152,7 @@ def _str_mat_op_get_vector(method, name, objlabel):
     get_cpp = \
         '\n{0} {1}::{2}_vector() const'.format(mtype, objlabel, name) + ' {'
     dim = mat.shape[0]
-    get_cpp += indent("\nstatic vector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
+    get_cpp += indent("\nvector<{1}> v = vector<{1}>({0});".format(dim, CONFIG_CPP['float']))
     for i in range(dim):
         get_cpp += indent("\nv[{0}] = _{1}({0}, 0);".format(i, name))
     get_cpp += indent("\nreturn v;")+"\n}"
-- 
2.43.0


From 3a566e8c7724b5aeaac62f8e644fc770c9f57ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:17 +0000
Subject: [PATCH 52/71] fix: observers which depend on substituted parameters
 could not be evaluated

---
 pyphs/numerics/tools/_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index e742e1f..9f2d1f8 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -65,10 +65,10 @@ class Evaluation(object):
             print('Build numerical evaluations...')
 
         self.core = core.__copy__()
-        self.core.o = list(self.core.observers.values())
-
         self.core.substitute(selfall=True)
 
+        self.core.o = list(self.core.observers.values())
+
         if names in ['all', None]:
             names = self.core.exprs_names
             names = names.union(self.core.struc_names)
-- 
2.43.0


From 2c85612b2fbe262c68d828067a4144e518feda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 53/71] fix: inverse() returned nan for a singular sparse
 matrix instead of raising

---
 pyphs/core/maths/_matrices.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/maths/_matrices.py b/pyphs/core/maths/_matrices.py
index 1c4914a..b7c9a34 100644
--- a/pyphs/core/maths/_matrices.py
+++ b/pyphs/core/maths/_matrices.py
@@ -7,7 +7,7 @@ Created on Mon May 15 20:19:21 2017
 """
 
 from ..tools import types, simplify
-from sympy import Matrix
+from sympy import Matrix, nan, oo, zoo
 
 
 def inverse(Mat, dosimplify=False):
@@ -18,6 +18,9 @@ def inverse(Mat, dosimplify=False):
         return Mat
     else:
         iMat = Mat.inv()
+        # sparse matrices are inverted without test of the pivots
+        if iMat.has(nan, zoo, oo):
+            raise ValueError('Matrix is not invertible.')
         if dosimplify:
             iMat = simplify(iMat)
         return iMat
-- 
2.43.0


From 40213a860e308fc180ea6a092b877c9d71135cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 54/71] fix: core.output() omitted the contribution of the
 pending connectors

---
 pyphs/core/structure/output.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/structure/output.py b/pyphs/core/structure/output.py
index d1e1182..ec491f6 100644
--- a/pyphs/core/structure/output.py
+++ b/pyphs/core/structure/output.py
@@ -43,7 +43,12 @@ y: list
         else:
             Vyw = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
 
-        out = list(Vyx + Vyw + Vyu)
+        if core.dims.cy() > 0:  # Check if system has pending connectors
+            Vycy = core.Mycy()*types.matrix_types[0](core.cu)
+        else:
+            Vycy = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
+
+        out = list(Vyx + Vyw + Vyu + Vycy)
 
     else:
         out = types.matrix_types[0](list(list()))
-- 
2.43.0


From 481ebf972f977febb789cf0f05f3882427b8206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 55/71] fix: graph plot on given axes could not be saved to a
 file

---
 pyphs/misc/plots/graphs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/misc/plots/graphs.py b/pyphs/misc/plots/graphs.py
index d302b43..3255b78 100644
--- a/pyphs/misc/plots/graphs.py
+++ b/pyphs/misc/plots/graphs.py
@@ -153,6 +153,8 @@ def plot(graph, filename=None, ax=None, layout=None, show=True):
     if ax is None:
         fig = plt.figure()
         ax = plt.axes(frameon=False)
+    else:
+        fig = ax.figure
     draw_nodes(graph, ax, layout=layout)
     draw_edges(graph, ax)
     plt.tight_layout()
-- 
2.43.0


From 73cd368e519d73c7febdf6d94b8a1167b6f4765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 56/71] fix: Faust process permuted the variables of systems
 with linear and nonlinear storages and dissipations

---
 pyphs/misc/faust/faustfx.template | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyphs/misc/faust/faustfx.template b/pyphs/misc/faust/faustfx.template
index 37a09c5..0b73392 100644
--- a/pyphs/misc/faust/faustfx.template
+++ b/pyphs/misc/faust/faustfx.template
@@ -67,8 +67,8 @@ cT = xT, oT, uT;
 // ----------------------------------------------------------
 // Shortcuts
 
-v2vl = v :(vl, vnlT);
-v2vnl = v :(vlT, vnl);
+v2vl = v :(xl, xnlT, wl, wnlT);
+v2vnl = v :(xlT, xnl, wlT, wnl);
 vlvnl2v = (vl, vnl) <: ((xl, wlT, vnlT), (vlT, xnl, wnlT), (xlT, wl, vnlT), (vlT, xnlT, wnl));
 
 // ----------------------------------------------------------
@@ -96,13 +96,13 @@ ${y}
 // Linear iteration:
 // Takes args, update linears vl, returns args
 
-iterationL = args <: (udvl, (vlT, vnl, c)) : (vlvnl2v, c) : args;
+iterationL = args <: (udvl, (xlT, xnl, wlT, wnl, c)) : (vlvnl2v, c) : args;
 
 // ----------------------------------------------------------
 // Nonlinear iteration:
 // Takes args, update nonlinears vnl, returns args
 
-iterationNL = args <: ((vl, vnlT, cT), udvnl, (vT, c)) : (vlvnl2v, c) : args;
+iterationNL = args <: ((xl, xnlT, wl, wnlT, cT), udvnl, (vT, c)) : (vlvnl2v, c) : args;
 
 // ----------------------------------------------------------
 // Main Iteration:
-- 
2.43.0


From b5e52c52a91a55780b4b3868d27e7ac6107fca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:04 +0000
Subject: [PATCH 57/71] fix: Faust process of systems without storage did not
 connect

---
 pyphs/misc/faust/_faust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/misc/faust/_faust.py b/pyphs/misc/faust/_faust.py
index 4959127..ec94d4a 100644
--- a/pyphs/misc/faust/_faust.py
+++ b/pyphs/misc/faust/_faust.py
@@ -273,7 +273,7 @@ def write_faust_fx(method, path=None, inputs=None, outputs=None, inits=None,
     udNL = ('iterationNL : '*nIt)[:-1] if len(method.vnl()) > 0 else ''
 
     # update x and y
-    udXY = '<: (udx, y)' if len(method.x) > 0 else '<: y'
+    udXY = '<: (udx, y)' if len(method.x) > 0 else '<: ((w, o, uT), y)'
     y = faust_vector('y', [method.output()[i] for i in iout],
                      argsnames, method.subs, method)
 
-- 
2.43.0


From e4202fe20eb94e5d03b05ad43e1cf6dd42e13a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 58/71] fix: multiplot failed with a single axis

---
 pyphs/misc/plots/multiplots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyphs/misc/plots/multiplots.py b/pyphs/misc/plots/multiplots.py
index cfb58fa..1b8dc97 100644
--- a/pyphs/misc/plots/multiplots.py
+++ b/pyphs/misc/plots/multiplots.py
@@ -197,27 +197,27 @@ def multiplot(x, y, show=True, **kwargs):
         # --------------------------------------------------------
         # Print legend
         if print_legend:
-            axs[n].legend(loc=opts['loc'])
+            axe.legend(loc=opts['loc'])
 
         # --------------------------------------------------------
         # Set y label
         if opts['ylabels'][n] is not None:
-            axs[n].set_ylabel(opts['ylabels'][n])
+            axe.set_ylabel(opts['ylabels'][n])
             if opts['xpos_ylabel'] is not None:
-                axs[n].yaxis.set_label_coords(opts['xpos_ylabel'], 0.5)
+                axe.yaxis.set_label_coords(opts['xpos_ylabel'], 0.5)
 
         # --------------------------------------------------------
         # Set x label if last plot
         if n == nplots-1:
-            axs[n].set_xlabel(opts['xlabel'])
+            axe.set_xlabel(opts['xlabel'])
         else:
             from matplotlib.pyplot import setp
-            setp(axs[n].get_xticklabels(), visible=False)
+            setp(axe.get_xticklabels(), visible=False)
 
         # --------------------------------------------------------
         # Show grid
-        axs[n].grid(opts['grid'])
-        axs[n].minorticks_on()
+        axe.grid(opts['grid'])
+        axe.minorticks_on()
 
     # ------------------------------------------------------------
     # Set title
-- 
2.43.0


From 46a10ec3b19b5ab32fefc7fe57aabb8e9bd06e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 59/71] fix: multiplot failed when the first of several axes is
 logarithmic

---
 pyphs/misc/plots/multiplots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/misc/plots/multiplots.py b/pyphs/misc/plots/multiplots.py
index 1b8dc97..501b325 100644
--- a/pyphs/misc/plots/multiplots.py
+++ b/pyphs/misc/plots/multiplots.py
@@ -121,6 +121,10 @@ def multiplot(x, y, show=True, **kwargs):
         i += 1
     fig, axs = subplots(nplots, 1, sharex=True, num=i)
 
+    # before any of the (shared) axes is set to logarithmic scale
+    for axe in numpy.ravel(axs):
+        axe.ticklabel_format(style='sci', scilimits=(-2, 2))
+
     # ------------------------------------------------------------
     # Iterate over y data
     for n, yn in enumerate(y):
@@ -132,8 +136,6 @@ def multiplot(x, y, show=True, **kwargs):
         else:
             axe = axs
 
-        axe.ticklabel_format(style='sci', scilimits=(-2, 2))
-
         # --------------------------------------------------------
         # flag
         print_legend = False
-- 
2.43.0


From 24c3870e7400d6f824f68ce19e3a1077f772a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 60/71] fix: multiplot changed the list of labels of the caller
 and did not check its length

---
 pyphs/misc/plots/multiplots.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/plots/multiplots.py b/pyphs/misc/plots/multiplots.py
index 501b325..8027170 100644
--- a/pyphs/misc/plots/multiplots.py
+++ b/pyphs/misc/plots/multiplots.py
@@ -104,8 +104,11 @@ def multiplot(x, y, show=True, **kwargs):
 
     if opts['labels'] is None:
         opts['labels'] = [None, ]*nplots
-    elif not len(opts['ylabels']) == nplots:
+    elif not len(opts['labels']) == nplots:
         raise AttributeError('wrong number of curves labels')
+    else:
+        # the labels are completed below
+        opts['labels'] = list(opts['labels'])
 
     if opts['log'] is None:
         opts['log'] = ['', ] * nplots
-- 
2.43.0


From c61ca0e9e26e58fa03fe1f978392e1d63b25d24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 61/71] fix: LaTeX equations of sparse matrices could not be
 written

---
 pyphs/misc/latex/tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/latex/tools.py b/pyphs/misc/latex/tools.py
index f8c73cf..c020a11 100644
--- a/pyphs/misc/latex/tools.py
+++ b/pyphs/misc/latex/tools.py
@@ -77,9 +77,8 @@ def obj2tex(obj, label, description, symbol_names, toMatrix=True):
     ------
     string
     """
-    obj = simplify(obj)
     if toMatrix:
-        obj = types.matrix_types[0](obj)
+        obj = types.matrix_types[0](obj).applyfunc(simplify)
         if obj.shape[0] * obj.shape[1] == 0:
             texobj = r'\mathrm{Empty}'
         elif sum(Abs(obj)) == 0:
@@ -87,7 +86,7 @@ def obj2tex(obj, label, description, symbol_names, toMatrix=True):
         else:
             texobj = sympy2latex(obj, symbol_names)
     else:
-        texobj = sympy2latex(obj, symbol_names)
+        texobj = sympy2latex(simplify(obj), symbol_names)
     str_out = ''
     description = description + " " if len(description) > 0 \
         else description
-- 
2.43.0


From 712ddb1bfa10c312bf6feda3bb8fbc5416d32cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 62/71] fix: symbolic values of the LaTeX table of parameters
 were outside math mode

---
 pyphs/misc/latex/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/misc/latex/tools.py b/pyphs/misc/latex/tools.py
index c020a11..09fbd24 100644
--- a/pyphs/misc/latex/tools.py
+++ b/pyphs/misc/latex/tools.py
@@ -125,7 +125,7 @@ def dic2table(labels, dic, sn, centering=True):
         if len(strk[1:]) > 0:
             label += r'_{\mathrm{'+strk[1:]+r'}}'
         if not isinstance(v, (int, float, str)):
-            value = sympy2latex(v, sn)
+            value = r"$" + sympy2latex(v, sn) + r"$"
         else:
             value = str(v)
         string += r"$" + label + r"$ & " + value + cr(0) + r"\\" + cr(0)
-- 
2.43.0


From 46d5391ef47dce55fd643bf8538145d2b7043a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 63/71] fix: LaTeX relations of connectors were swapped and ran
 into each other

---
 pyphs/misc/latex/latexcore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/latex/latexcore.py b/pyphs/misc/latex/latexcore.py
index 596f360..53c4fe0 100644
--- a/pyphs/misc/latex/latexcore.py
+++ b/pyphs/misc/latex/latexcore.py
@@ -130,10 +130,10 @@ class LatexCore(object):
         for i, c in enumerate(self.core.connectors):
             alpha = c['alpha']
             u1, y1 = c['u'][0], c['y'][0]
-            s = obj2tex(alpha*y1, str(u1), '', self.sn)
             u2, y2 = c['u'][1], c['y'][1]
-            s += obj2tex(-alpha*y2, str(u2), '', self.sn)
-            l.append(s)
+            for u, expr in ((u1, -alpha*y2), (u2, alpha*y1)):
+                l.append(obj2tex(expr, sympy2latex(u, self.sn), '', self.sn,
+                                 toMatrix=False))
         self.connectors_elements = l
 
         self.y_elements = list(map(lambda a: obj2tex(a[0], sympy2latex(a[1], self.sn),
-- 
2.43.0


From 622685e4b49d18ee9288f38e3d475e44614034ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 64/71] fix: LaTeX netlists and titles with underscores did not
 compile

---
 pyphs/misc/latex/netlist.py | 12 ++++++------
 pyphs/misc/latex/tools.py   |  9 ++++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyphs/misc/latex/netlist.py b/pyphs/misc/latex/netlist.py
index 882b5d9..c6b2299 100644
--- a/pyphs/misc/latex/netlist.py
+++ b/pyphs/misc/latex/netlist.py
@@ -8,7 +8,7 @@ Created on Fri Dec 30 14:59:51 2016
 from __future__ import absolute_import, division, print_function
 
 from .tools import cr
-from .tools import dic2array
+from .tools import dic2array, text
 
 import os
 import string
@@ -26,11 +26,11 @@ def netlist2tex(netlist):
         l = 0
         for comp in netlist:
             l += 1
-            latex_line = r"$\ell_" + str(l) + r"$"
-            latex_dic = str(comp['dictionary'])
-            latex_comp = str(comp['component'])
-            latex_label = str(comp['label'])
-            latex_nodes = str(comp['nodes'])
+            latex_line = r"$\ell_{" + str(l) + r"}$"
+            latex_dic = text(comp['dictionary'])
+            latex_comp = text(comp['component'])
+            latex_label = text(comp['label'])
+            latex_nodes = text(comp['nodes'])
             latex_args = r'$\left\{ ' + dic2array(comp['arguments']) +\
                 r'\right.$'
             str_table = \
diff --git a/pyphs/misc/latex/tools.py b/pyphs/misc/latex/tools.py
index 09fbd24..e577349 100644
--- a/pyphs/misc/latex/tools.py
+++ b/pyphs/misc/latex/tools.py
@@ -136,6 +136,13 @@ def dic2table(labels, dic, sn, centering=True):
     return string
 
 
+def text(obj):
+    """
+    Return str(obj) for LaTeX's text mode (the '#' is replaced in texdocument)
+    """
+    return str(obj).replace('_', r'\_')
+
+
 def dic2array(dic):
     """
     """
@@ -143,7 +150,7 @@ def dic2array(dic):
     string += r"\begin{tabular}{ll}" + cr(1)
     for k in dic.keys():
         v = dic[k]
-        string += str(k) + r" & " + str(v) + cr(0) + r"\\" + cr(0)
+        string += text(k) + r" & " + text(v) + cr(0) + r"\\" + cr(0)
     string += r"\end{tabular}"
     return string
 
-- 
2.43.0


From 72c936751f344f8137d20f48eef2d714cd5fe7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 65/71] fix: core.texwrite failed or truncated relative file
 names

---
 pyphs/core/core.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 9f78fc5..2613cc5 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -1018,14 +1018,10 @@ add the connector'.format(i)
             folder = os.getcwd()
             path = os.path.join(folder, '{}.tex'.format(self.label))
         else:
-            if os.sep in path:
-                imax = path.rfind(os.sep)
-            else:
-                imax = -1
-            folder = path[:imax]
+            folder = os.path.dirname(os.path.abspath(path))
 
         if title is None:
-            title = r'{0}'.format(self.label)
+            title = self.label.replace('_', r'\_')
 
         content = ""
         if hasattr(self, '_netlist'):
-- 
2.43.0


From b4006fd6de3d11645d02c205441eb1b30c24be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 66/71] fix: method2jucefx changed the float type of every
 later C++ code

---
 pyphs/misc/juce/_fx.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/juce/_fx.py b/pyphs/misc/juce/_fx.py
index 29cae8a..7259be6 100644
--- a/pyphs/misc/juce/_fx.py
+++ b/pyphs/misc/juce/_fx.py
@@ -107,10 +107,15 @@ def method2jucefx(method, objlabel=None, io=None, inits=None, params=None,
 
     objlabel = method.label.lower()
     cppfolder = os.path.join(path, method.label + '_Sources')
+    float_type = CONFIG_CPP['float']
     CONFIG_CPP['float'] = 'float'
-    method.to_cpp(objlabel=objlabel, path=cppfolder,
-                  inits=inits,
-                  config=config)
+    try:
+        method.to_cpp(objlabel=objlabel, path=cppfolder,
+                      inits=inits,
+                      config=config)
+    finally:
+        # the type of the other generated codes is unchanged
+        CONFIG_CPP['float'] = float_type
     snippetsfolder = os.path.join(path, method.label + '_Juce_Snippets')
     parametersFloats = audioParametersFloats(method, indices_inputs,
                                              indices_outputs, params)
-- 
2.43.0


From 0193a2ba9973760b2e26524f6d0178c7cbf16195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 67/71] fix: JUCE snippets of systems with more outputs than
 inputs used an undeclared channel

---
 pyphs/misc/juce/_fx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/misc/juce/_fx.py b/pyphs/misc/juce/_fx.py
index 7259be6..3a9e0bd 100644
--- a/pyphs/misc/juce/_fx.py
+++ b/pyphs/misc/juce/_fx.py
@@ -366,10 +366,10 @@ def snippetPluginProcessorCppProcessBlock(objlabel, ninputs, noutputs, parameter
     for i in range(ninputs):
         code +=applygain('In', i)
     code += indent("\nfloat* leftData = buffer.getWritePointer(0);\n")
-    if ninputs > 1:
+    if ninputs > 1 or noutputs > 1:
         code += indent("\n// Get right data.")
         code += indent("\nfloat* rightData;")
-        code += indent("\nif (totalNumInputChannels==2)")
+        code += indent("\nif (buffer.getNumChannels()==2)")
         code += indent("\n{")
         code += indent(indent("\nrightData = buffer.getWritePointer(1);"))
         code += indent("\n}\n")
-- 
2.43.0


From 6d1412541d6c0100e6a9e31caea489f20ab838f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:52 +0000
Subject: [PATCH 68/71] fix: JUCE snippets saved the parameters of a block
 under the name of the last one only

---
 pyphs/misc/juce/_fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/misc/juce/_fx.py b/pyphs/misc/juce/_fx.py
index 3a9e0bd..8893130 100644
--- a/pyphs/misc/juce/_fx.py
+++ b/pyphs/misc/juce/_fx.py
@@ -416,7 +416,7 @@ def snippetPluginProcessorCppProcessBlock(objlabel, ninputs, noutputs, parameter
         code += indent("\n\n// Save parameters values")
         for p in parametersFloats:
             if not (list(p.keys())[0].startswith('inputGain') or list(p.keys())[0].startswith('outputGain')):
-                current = 'current{0}'.format(list(p.keys())[0][0].upper() + list(p.keys())[0][1:])
+                previous = 'previous{0}'.format(list(p.keys())[0][0].upper() + list(p.keys())[0][1:])
                 code += indent('\n{0} = *{1};'.format(previous, list(p.keys())[0]))
     code += "\n}"
     return code
-- 
2.43.0


From 4dadf22f36ba8960d07b674d2ef6f4bb1d564907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 69/71] fix: figures of the graph analysis pointed to the wrong
 nodes when the datum is not the first node

---
 pyphs/misc/plots/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/misc/plots/graphs.py b/pyphs/misc/plots/graphs.py
index 3255b78..4598b1e 100644
--- a/pyphs/misc/plots/graphs.py
+++ b/pyphs/misc/plots/graphs.py
@@ -212,7 +212,7 @@ def plot_analysis(graph, analysis, show=True):
                     edges_copy.append(edge)
                     edges_colors.append('storage')
                 elif sum(col) == 1:
-                    inode2 = list(graph.nodes())[list(col).index(1)]
+                    inode2 = analysis.nodes[list(col).index(1)]
                     inode1 = edge[0] if edge[1] == inode2 else edge[1]
                     edges_copy.append((inode1, inode2, edge[-1]))
                     edges_colors.append('dissipative')
-- 
2.43.0


From f92a4ef8afd1063924366e55b8e6549d0c12def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 70/71] fix: the documented type mfv of the magnetic source was
 refused

---
 pyphs/dictionary/magnetics/_source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/magnetics/_source.py b/pyphs/dictionary/magnetics/_source.py
index 2cdc6f2..13ece2f 100644
--- a/pyphs/dictionary/magnetics/_source.py
+++ b/pyphs/dictionary/magnetics/_source.py
@@ -21,10 +21,10 @@ class Source(Port):
         parameters.update(kwargs)
         type_ = parameters['type']
         type_ = type_.lower()
-        assert type_ in ('mmf', 'fluxvar')
+        assert type_ in ('mmf', 'mfv', 'fluxvar')
         if type_ == 'mmf':
             ctrl = 'f'
-        elif type_ == 'fluxvar':
+        elif type_ in ('mfv', 'fluxvar'):
             ctrl = 'e'
         parameters.update({'ctrl': ctrl})
         Port.__init__(self, label, nodes, **parameters)
-- 
2.43.0


From 94daba5e0b708f3898273f8cb80431b661c47744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 71/71] fix: documentation of the thermal source and of the pwl
 components gave the power variables of mechanics

---
 pyphs/dictionary/pwl/_dissipative.py | 2 +-
 pyphs/dictionary/pwl/_storage.py     | 2 +-
 pyphs/dictionary/thermics/_source.py | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyphs/dictionary/pwl/_dissipative.py b/pyphs/dictionary/pwl/_dissipative.py
index 9336474..3b7edda 100644
--- a/pyphs/dictionary/pwl/_dissipative.py
+++ b/pyphs/dictionary/pwl/_dissipative.py
@@ -14,7 +14,7 @@ import os
 from .. import edges
 from pyphs import Graph
 from ..tools import componentDoc, parametersDefault
-from ..mechanics import metadata as dicmetadata
+from ..pwl import metadata as dicmetadata
 from pyphs.misc.rst import equation
 
 from ..tools import symbols
diff --git a/pyphs/dictionary/pwl/_storage.py b/pyphs/dictionary/pwl/_storage.py
index f1708e5..3ddd1f6 100644
--- a/pyphs/dictionary/pwl/_storage.py
+++ b/pyphs/dictionary/pwl/_storage.py
@@ -12,7 +12,7 @@ import numpy as np
 from .. import edges
 from pyphs import Graph
 from ..tools import componentDoc, parametersDefault
-from ..mechanics import metadata as dicmetadata
+from ..pwl import metadata as dicmetadata
 from pyphs.misc.rst import equation
 
 from ..tools import symbols
diff --git a/pyphs/dictionary/thermics/_source.py b/pyphs/dictionary/thermics/_source.py
index eda4b67..5d3c8dd 100644
--- a/pyphs/dictionary/thermics/_source.py
+++ b/pyphs/dictionary/thermics/_source.py
@@ -10,7 +10,7 @@ from ..edges import Port
 from ..tools import symbols
 from pyphs.graphs import datum
 from ..tools import componentDoc, parametersDefault
-from ..mechanics import metadata as dicmetadata
+from ..thermics import metadata as dicmetadata
 from pyphs.misc.rst import equation
 
 
@@ -44,11 +44,11 @@ class Source(Port):
                          (datum, nodes[0]), **kwargs)
         self.core.observers.update(obs)
 
-    metadata = {'title': 'Mechanical Source',
+    metadata = {'title': 'Thermal Source',
                 'component': 'Source',
                 'label': 'T',
                 'dico': 'thermics',
-                'desc': r"Thermal source, i.e. imposed temperature delta (type='temp') or entropy variation (type='ev') between points.",
+                'desc': r"Thermal source, i.e. imposed temperature delta (type='temperature') or entropy variation (type='entropyvar') between points.",
                 'nodesdesc': "Thermal point associated with the source with positive flux #->temp. The node label must be the same as the component label.",
                 'nodes': ('T', ),
                 'parametersdesc': 'Component parameter.',
-- 
2.43.0

