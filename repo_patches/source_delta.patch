From 1cbb890d024283b95aa1f85feceade5c8b799abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 01/38] fix: derivative of x % y with respect to an uncertain
 divisor

The numerical derivative stepped over the discontinuities of the modulo for
large quotients (or divisors close to one): 1e9 % ufloat(7, 0.1) had a
meaningless uncertainty.
---
 uncertainties/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..8d41a39 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2519,9 +2519,8 @@ def get_ops_with_reflection():
         # floats, and is therefore the "usual" mathematical division.
         'div': ("1/y", "-x/y**2"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
-        # The derivative wrt the 2nd arguments is something like (..., x//y),
-        # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        # x % y is x - y*(x//y), and x//y is locally constant:
+        'mod': ("1.", "-(x//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y**2")
-- 
2.43.0


From 30aa4cc5ffad92c81fad1b561c470dc09233cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 02/38] fix: division by numbers whose square is out of range

1/ufloat(1e200, 1e198) raised OverflowError, and 1/ufloat(1e-200, 1e-202)
raised ZeroDivisionError, because the derivative was calculated as -x/y**2.
---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 8d41a39..ae629a0 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2517,13 +2517,13 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # x % y is x - y*(x//y), and x//y is locally constant:
         'mod': ("1.", "-(x//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-x/y/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From c148950147efc8e4ecfdb5f7a967498d502abd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 03/38] fix: uncertainty of the mantissa returned by
 umath.frexp()

The linear part was not a list of (coefficient, expression) pairs: getting the
uncertainty raised TypeError.
---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 21ca63df47e7f8a416c9262041f75f21e1befcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 04/38] fix: covariance of numbers that depend on exact
 variables

covariance_matrix([umath.sqrt(ufloat(0, 0))]) was NaN while the standard
deviation is 0: an exact variable does not contribute, even where the
derivative is undefined.
---
 uncertainties/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ae629a0..b904766 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2909,8 +2909,11 @@ def covariance_matrix(nums_with_uncert):
             coefs_expr1.append(sum(
                 ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
                 # var is a variable common to both numbers with
-                # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                # uncertainties (exact variables do not contribute, even
+                # through an undefined [NaN] derivative, like in
+                # error_components()):
+                for var in vars1.intersection(derivatives2)
+                if var._std_dev != 0),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From 42b1260f323c92ac4dd7ec10124b2a2b6dd27a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 05/38] fix: standard deviation of minus infinity

ufloat(1, -inf) was accepted.
---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index b904766..6442baa 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2782,7 +2782,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0:  # False for NaN
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From d4b036d51982db4c2dd5bea858bcc1b419ae184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 06/38] fix: strings with an empty exponent are invalid

ufloat_fromstr('1e') and ufloat_fromstr('1.2(3)e') were accepted, as if there
was no exponent; invalid representations must raise ValueError.
---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 6442baa..b518b9a 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3024,7 +3024,7 @@ def parse_error_in_parentheses(representation):
                              % representation)
 
     # Global exponent:
-    if exponent:
+    if exponent is not None:
         factor = 10.**nrmlze_superscript(exponent)
     else:
         factor = 1
-- 
2.43.0


From d8348f9ade4a26872a26dba99511bf8fffdc6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 07/38] fix: derivatives of umath functions of large numbers

The square of a number larger than 1e154 overflowed, in the derivatives of
acosh, asinh, atan, atan2, erf and erfc, which gave a NaN uncertainty (e.g.
umath.atan(ufloat(1e200, 1))); atan2 also failed for small arguments.
---
 uncertainties/umath_core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..2b08f21 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -180,20 +180,20 @@ erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 fixed_derivatives = {
     # In alphabetical order, here:
     'acos': [lambda x: -1/math.sqrt(1-x**2)],
-    'acosh': [lambda x: 1/math.sqrt(x**2-1)],
+    'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)],
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
-    'asinh': [lambda x: 1/math.sqrt(1+x**2)],
-    'atan': [lambda x: 1/(1+x**2)],
-    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0
-              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0
+    'asinh': [lambda x: 1/math.hypot(1, x)],
+    'atan': [lambda x: 1/(1+x*x)],
+    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),  # Correct for x == 0
+              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],  # Correct for x == 0
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
     'cosh': [math.sinh],
     'degrees': [lambda x: math.degrees(1)],
-    'erf': [lambda x: math.exp(-x**2)*erf_coef],
-    'erfc': [lambda x: -math.exp(-x**2)*erf_coef],
+    'erf': [lambda x: math.exp(-x*x)*erf_coef],
+    'erfc': [lambda x: -math.exp(-x*x)*erf_coef],
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-- 
2.43.0


From 143516998d4b7658f0aefaa9bac6a901163b9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 08/38] fix: standard deviation of very large or very small
 results

(ufloat(1e200, 1e198)*1).std_dev raised OverflowError, and
(ufloat(1, 1e-200)+0).std_dev was 0.
---
 uncertainties/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index b518b9a..48f2e88 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1831,8 +1831,16 @@ class AffineScalarFunc(object):
         #std_dev value (in fact, many intermediate AffineScalarFunc do
         #not need to have their std_dev calculated: only the final
         #AffineScalarFunc returned to the user does).
-        return CallableStdDev(sqrt(sum(
-            delta**2 for delta in self.error_components().values())))
+        errors = self.error_components().values()
+
+        # The errors are scaled by a power of 2, so that their square
+        # does not overflow or underflow (this scaling is exact):
+        max_error = max(errors) if errors else 0
+        scale = (2.**(math.frexp(max_error)[1]-1)
+                 if 0 < max_error < float('inf') else 1.)
+
+        return CallableStdDev(
+            scale*sqrt(sum((delta/scale)**2 for delta in errors)))
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From db50edb0208f88d0d944e57e9632ccf64e1c71a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 09/38] fix: umath.ldexp() and unumpy.ldexp() with negative
 NumPy exponents

2**i raised ValueError for a negative NumPy integer i.
---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 2b08f21..a9b58f8 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -361,7 +361,7 @@ def ldexp(x, i):
     if aff_func._linear_part:
         return AffineScalarFunc(
             math.ldexp(aff_func.nominal_value, i),
-            LinearCombination([(2**i, aff_func._linear_part)]))
+            LinearCombination([(2**int(i), aff_func._linear_part)]))
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
-- 
2.43.0


From 46ecefc4eee8a429865c026dff2fbf1263e5d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 10/38] fix: umath.ldexp() and umath.frexp() of results that
 depend on no variable

Such numbers with uncertainties are for instance found in the inverse of
diagonal matrices; these functions raised TypeError on them.
---
 uncertainties/umath_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index a9b58f8..b929f14 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -371,7 +371,7 @@ def ldexp(x, i):
         # math.ldexp, this way (aff_func.nominal_value might be the
         # value of x coerced to a difference type [int->float, for
         # instance]):
-        return math.ldexp(x, i)
+        return math.ldexp(uncert_core.nominal_value(x), i)
 many_scalars_to_scalar_funcs.append('ldexp')
 
 @uncert_core.set_doc(math.frexp.__doc__)
@@ -402,7 +402,7 @@ def frexp(x):
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
-        return math.frexp(x)
+        return math.frexp(uncert_core.nominal_value(x))
 non_std_wrapped_funcs.append('frexp')
 
 ###############################################################################
-- 
2.43.0


From bf09e57b4e615c3bd76911f27283155191ceba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 11/38] fix: keyword arguments of wrapped bound methods

wrap() associated the derivatives of a bound method with the wrong parameter
names (self was counted as the first parameter), so that calling the wrapped
method with keyword arguments gave an incorrect uncertainty.
---
 uncertainties/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 48f2e88..ee231b0 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -590,7 +590,11 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        # The first parameter of a method (self) is not a parameter of
+        # the bound method f:
+        arg_names = argspec.args[1:] if inspect.ismethod(f) else argspec.args
+
+        for (index, name) in enumerate(arg_names):
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From 3f54adea53c0e84af53419861b2097354a50b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 12/38] fix: pickling and deep copying the result of long
 calculations

Results whose derivatives had not been calculated yet were pickled through
their nested expression: RecursionError was raised for sums of a few hundred
terms.
---
 uncertainties/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ee231b0..27679c6 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1581,6 +1581,13 @@ class LinearCombination(object):
         self.linear_combo = derivatives
 
     def __getstate__(self):
+        # The expanded form does not depend on deeply nested
+        # expressions, which cannot be handled recursively (by pickle,
+        # etc.):
+        if not self.expanded():
+            self.expand()
+            self.linear_combo.default_factory = None
+
         # Not false, otherwise __setstate__() will not be called:
         return (self.linear_combo,)
 
-- 
2.43.0


From d28e2cb09a1e81c1fde7cf41af2865b6c2b5a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 13/38] fix: '=' alignment in the format of numbers with
 uncertainties

This alignment is accepted in the format specification, like for floats, but
format(ufloat(1, 0.1), '=10') raised ValueError.
---
 uncertainties/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 27679c6..042b593 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -971,6 +971,12 @@ def robust_align(orig_str, fill_char, align_option, width):
     # print "ALIGNING", repr(orig_str), "WITH", fill_char+align_option,
     # print "WIDTH", width
 
+    if align_option == '=':  # Not defined for strings
+        # The padding is put between any sign and the digits:
+        sign_len = 1 if orig_str[0] in '+- ' else 0
+        return orig_str[:sign_len] + orig_str[sign_len:].rjust(
+            int(width)-sign_len, fill_char or ' ')
+
     return format(orig_str, fill_char+align_option+width)
 
 # Maps some Unicode code points ("-", "+", and digits) to their
-- 
2.43.0


From 1d9b4b9e08e0920b7ece51fbbe9397d7ab7101ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 14/38] fix: unumpy.isnan() and unumpy.isinf() of empty arrays

numpy.vectorize() cannot guess the type of the result for empty arrays:
ValueError was raised.
---
 uncertainties/unumpy/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..26326c1 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -699,7 +699,8 @@ def define_vectorized_funcs():
             # return an array with a boolean data type (instead of
             # object), which allows the result to be used with NumPy's
             # boolean indexing.
-            {} if function_name in umath_core.locally_cst_funcs
+            {'otypes': [bool]} if function_name in ['isinf', 'isnan']
+            else {} if function_name in umath_core.locally_cst_funcs
             # If by any chance a function returns, in a particular
             # case, an integer instead of a number with uncertainty,
             # side-effects in vectorize() would fix the resulting
-- 
2.43.0


From d1929f3f858095686126adf04c9682bf08312564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 15/38] fix: derivatives of umath.fmod()

The numerical derivatives stepped over the discontinuities of fmod(x, y) for
large quotients: the uncertainty on umath.fmod(ufloat(1e9, 1), 7) was
meaningless.
---
 uncertainties/umath_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b929f14..057c224 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -59,7 +59,7 @@ many_scalars_to_scalar_funcs = []
 # Functions with numerical derivatives:
 #
 # !! Python2.7+: {..., ...}
-num_deriv_funcs = set(['fmod', 'gamma', 'lgamma'])
+num_deriv_funcs = set(['gamma', 'lgamma'])
 
 # Functions are by definition locally constant (on real
 # numbers): their value does not depend on the uncertainty (because
@@ -197,6 +197,9 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
+    # fmod(x, y) is x - n*y, where n is an integer (locally constant):
+    'fmod': [lambda x, y: 1.,
+             lambda x, y: (math.fmod(x, y)-x)/y],
     'hypot': [lambda x, y: x/math.hypot(x, y),
               lambda x, y: y/math.hypot(x, y)],
     'log': [log_der0,
-- 
2.43.0


From f51e4dc5370af6103b4799c149785a953907d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 16/38] fix: std_dev with infinite or NaN error components and
 large ones

(1/ufloat(1e-156, 0.1)).std_dev raised OverflowError: ** raises an
exception when a square overflows, contrary to *.
---
 uncertainties/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 042b593..c603c8c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1856,8 +1856,12 @@ class AffineScalarFunc(object):
         scale = (2.**(math.frexp(max_error)[1]-1)
                  if 0 < max_error < float('inf') else 1.)
 
+        # The square is not calculated with **, which raises an exception
+        # when it overflows (case of other errors that are infinite or NaN):
+        scaled_errors = [delta/scale for delta in errors]
+
         return CallableStdDev(
-            scale*sqrt(sum((delta/scale)**2 for delta in errors)))
+            scale*sqrt(sum(delta*delta for delta in scaled_errors)))
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From 503ab105fb50854c468081e6b0b7d20357f0b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 17/38] fix: copy.copy() of an instance of a UFloat subclass
 shared its attributes

Setting an attribute of the copy also set it in the original: the state
returned by __getstate__() contained the __dict__ of the object itself.
---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c603c8c..1dae3e9 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2429,7 +2429,10 @@ class AffineScalarFunc(object):
         # contains keys that are shadowed by slot names:
 
         try:
-            all_attrs['__dict__'] = self.__dict__
+            # A copy is needed, because this state is also used by
+            # copy.copy(), which would otherwise return an object that
+            # shares its attributes with the original:
+            all_attrs['__dict__'] = self.__dict__.copy()
         except AttributeError:
             pass
 
-- 
2.43.0


From 5f0ad231fb4202ac0ea6498cbf9895c81f460c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 18/38] fix: correlated_values() with a covariance given as a
 NumPy matrix

The numbers returned raised ValueError when their standard deviation was
read (the same with correlated_values_norm()).
---
 uncertainties/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1dae3e9..a2acab8 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -163,6 +163,9 @@ else:
         independent variable.
         """
 
+        # NumPy matrices do not behave like arrays below (diagonal, etc.):
+        covariance_mat = numpy.asarray(covariance_mat)
+
         # !!! It would in principle be possible to handle 0 variance
         # variables by first selecting the sub-matrix that does not contain
         # such variables (with the help of numpy.ix_()), and creating 
@@ -228,7 +231,8 @@ else:
         #
         # The covariance matrix is diagonalized in order to define
         # the independent variables that model the given values:
-        (variances, transform) = numpy.linalg.eigh(correlation_mat)
+        (variances, transform) = numpy.linalg.eigh(
+            numpy.asarray(correlation_mat))
 
         # Numerical errors might make some variances negative: we set
         # them to zero:
-- 
2.43.0


From e008bc66dc27cfbffdef11f9ffe6fa3a32d22dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 19/38] fix: precision of the parts of numbers with a zero, NaN
 or infinite part

The precision of the format was used as a width with the '', g and G types
(format(ufloat(3.14159265, 0), '.3g') gave 3.14159+/-0), and was refused
after a comma.
---
 uncertainties/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index a2acab8..f1a373f 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1165,6 +1165,15 @@ def format_num(nom_val_main, error_main, common_exp,
     # over common_exp):
     special_error = not error_main or isinfinite(error_main)
 
+    # Format suffix for a main part with no matching precision in the
+    # other part, for the '', g and G types. A precision is interpreted
+    # like for the g type, because the exponent, if any, is handled by
+    # common_exp (a precision without any type can yield an exponent):
+    if fmt_parts['prec']:
+        special_suffix = '.%s%s' % (fmt_parts['prec'], fmt_parts['type'] or 'g')
+    else:
+        special_suffix = fmt_parts['type']
+
     # Nicer representation of the main nominal part, with no trailing
     # zeros, when the error does not have a defined number of
     # significant digits:
@@ -1173,7 +1182,7 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        fmt_suffix_n = special_suffix
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1383,7 +1392,7 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                fmt_suffix_e = special_suffix
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 2beebfd39f87478a4bd19c3ca9f578b48c2d8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 20/38] fix: invalid format specifications that start with an
 unrelated character

format(x, 'n'), format(x, 'd') or format(x, '*10') were accepted (their first
character was taken as a fill character without any alignment).
---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f1a373f..00d3ff0 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2025,7 +2025,8 @@ class AffineScalarFunc(object):
         # Format specification parsing:
 
         match = re.match(r'''
-            (?P<fill>[^{}]??)(?P<align>[<>=^]?)  # fill cannot be { or }
+            # fill cannot be { or }, and is only valid before an alignment:
+            (?P<fill>(?:[^{}](?=[<>=^]))?)(?P<align>[<>=^]?)
             (?P<sign>[-+ ]?)
             (?P<zero>0?)
             (?P<width>\d*)
-- 
2.43.0


From 0c16f0c4a7612f59a9f9ea0588875301e8804f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 21/38] fix: factored exponent of strings like (1.2(3))e5

The exponent was silently ignored.
---
 uncertainties/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 00d3ff0..7bb9f19 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3204,10 +3204,12 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            (nom_value, uncert) = parse_error_in_parentheses(representation)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
+        parsed_value = (nom_value*factor, uncert*factor)
+
     return parsed_value
 
 def ufloat_fromstr(representation, tag=None):
-- 
2.43.0


From 0b193d0c1eb85321edad722d9e2edddb22e7816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 22/38] fix: strings with a number out of the range of floats
 are invalid

ufloat_fromstr('1e400') raised OverflowError instead of ValueError.
---
 uncertainties/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7bb9f19..215de62 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3271,8 +3271,11 @@ def ufloat_fromstr(representation, tag=None):
     uncertainty on the last digits of the nominal value).
     """
 
-    (nominal_value, std_dev) = str_to_number_with_uncert(
-        representation.strip())
+    try:
+        (nominal_value, std_dev) = str_to_number_with_uncert(
+            representation.strip())
+    except OverflowError:  # Exponent or digits out of the range of floats
+        raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
     return ufloat(nominal_value, std_dev, tag)
 
-- 
2.43.0


From c515ab867106de0e65a564d3fb0bee0da1b23a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 23/38] fix: shorthand notation of NaN and infinite nominal
 values

format(ufloat(nan, 0.5), 'S') gave nan(500000000000).
---
 uncertainties/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 215de62..0f0213c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1224,8 +1224,10 @@ def format_num(nom_val_main, error_main, common_exp,
             # keep it as it is, in this case (e.g. 1.2(3.4), as this
             # makes the result easier to read); the shorthand
             # notation then essentially coincides with the +/-
-            # notation:
-            if first_digit(uncert) >= 0 and prec > 0:
+            # notation. A NaN or infinite nominal value has no last digits
+            # that the uncertainty can refer to:
+            if ((first_digit(uncert) >= 0 or isinfinite(nom_val_main))
+                and prec > 0):
                 # This case includes a zero rounded error with digits
                 # after the decimal point:
                 uncert_str = '%.*f' % (prec, uncert)
-- 
2.43.0


From bda5ad0c42c2c9ba0f0d5fde4cedb629ca846a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:36 +0000
Subject: [PATCH 24/38] fix: unumpy.arcsinh was missing

Contrary to the other inverse functions, it only had its math module name.
---
 uncertainties/unumpy/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 26326c1..aefb3ad 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -726,4 +726,10 @@ Original documentation:
 
         __all__.append(unumpy_name)
 
+    # The NumPy name of asinh (which is also available under its math
+    # module name, contrary to the other inverse functions, because code
+    # might use it):
+    this_module.arcsinh = this_module.asinh
+    __all__.append('arcsinh')
+
 define_vectorized_funcs()
-- 
2.43.0


From 5eea3032aef9e9234a6b27d38e54d944fffc53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 25/38] fix: multiplication of a unumpy.matrix by a number with
 uncertainty

---
 uncertainties/unumpy/core.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index aefb3ad..1a9ce76 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -603,6 +603,15 @@ class matrix(numpy.matrix):
     matrix contains numbers with uncertainties.
     """
 
+    def __mul__(self, other):
+        # ! NumPy's matrix __mul__ does not handle numbers with
+        # uncertainties, because it does not know that they are
+        # scalars (contrary to other operations, like the addition):
+        if isinstance(other, uncert_core.UFloat):
+            return numeric.dot(self, other)
+        else:
+            return numpy.matrix.__mul__(self, other)
+
     def __rmul__(self, other):
         # ! NumPy's matrix __rmul__ uses an apparently restrictive
         # dot() function that cannot handle the multiplication of a
-- 
2.43.0


From 7423e3d9b15bb74a8012f148a90654366b544dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 26/38] fix: 1to2 changed uarray(*args) into uarray(**args)

---
 uncertainties/lib1to2/fixes/fix_uarray_umatrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index a47284a..b8a0282 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -63,8 +63,10 @@ class FixUarrayUmatrix(BaseFix):
 
             args_node = results['args']
 
-            # We must make sure that there is a single argument:
-            if args_node.type == syms.arglist:
+            # We must make sure that there is a single argument, and
+            # that it is positional (syms.argument is for the forms
+            # *args, **kwargs and name=value, which are not obsolete):
+            if args_node.type in (syms.arglist, syms.argument):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-- 
2.43.0


From b13269d657c74c164478c22e5b428b30eaddd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 27/38] fix: 1to2 did not update x.std_dev()**2 or
 m.std_devs()[0]

---
 uncertainties/lib1to2/fixes/fix_std_dev.py  | 4 ++--
 uncertainties/lib1to2/fixes/fix_std_devs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index fd15912..bf62cb6 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -12,7 +12,7 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDev(BaseFix):
     
     PATTERN = """
-    power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_dev' > call=trailer< '(' ')' > any* >
     |
     power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
     """
@@ -34,5 +34,5 @@ class FixStdDev(BaseFix):
         else:
             # '.std_dev' is followed by a call with no argument: the call
             # is removed:
-            node.children[-1].remove()
+            results['call'].remove()
         
diff --git a/uncertainties/lib1to2/fixes/fix_std_devs.py b/uncertainties/lib1to2/fixes/fix_std_devs.py
index 31afaf7..9ecc1c9 100644
--- a/uncertainties/lib1to2/fixes/fix_std_devs.py
+++ b/uncertainties/lib1to2/fixes/fix_std_devs.py
@@ -12,11 +12,11 @@ from lib2to3.fixer_util import Name, Assign
 class FixStdDevs(BaseFix):
 
     PATTERN = """
-    power< any* trailer< '.' 'std_devs' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_devs' > call=trailer< '(' ')' > any* >
     """
 
     def transform(self, node, results):
 
         # '.std_dev' is followed by a call with no argument: the call
         # is removed:
-        node.children[-1].remove()
+        results['call'].remove()
-- 
2.43.0


From 1b0e31bdbc5737bef9079ff3c4a792abba8b5bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 28/38] fix: 1to2 made invalid code from set_std_dev() in an
 expression or over several lines

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index bf62cb6..b324753 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -7,7 +7,7 @@ Transforms .std_dev() calls into .std_dev attribute access.
 '''
 
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign
+from lib2to3.fixer_util import Name, Assign, parenthesize, syms
 
 class FixStdDev(BaseFix):
     
@@ -21,6 +21,14 @@ class FixStdDev(BaseFix):
 
         if 'set_arg' in results:  # Case of .set_std_dev()
 
+            # An assignment cannot be used inside an expression (lambda
+            # function, etc.), and its value must be a single argument
+            # (other forms are incorrect, or not simply transformed):
+            set_arg = results['set_arg']
+            if (node.parent.type != syms.simple_stmt
+                or set_arg.type in (syms.arglist, syms.argument)):
+                return  # Nothing modified
+
             # set_std_dev => std_dev
             attribute = node.children[-2]  # .set_std_dev
             attribute.children[1].replace(Name('std_dev'))
@@ -28,8 +36,15 @@ class FixStdDev(BaseFix):
             # Call "(arg)": removed
             node.children[-1].remove()
 
+            # The value can extend over multiple lines, when it is inside
+            # the parentheses of the call:
+            new_value = set_arg.clone()
+            new_value.prefix = ''
+            if '\n' in str(new_value):
+                new_value = parenthesize(new_value)
+
             # Replacement by an assignment:
-            node.replace(Assign(node.clone(), results['set_arg'].clone()))
+            node.replace(Assign(node.clone(), new_value))
             
         else:
             # '.std_dev' is followed by a call with no argument: the call
-- 
2.43.0


From da9e32a2b1e9345e03e8be0b79c38299c2651394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 29/38] fix: formatting of numbers below the smallest normal
 float

---
 uncertainties/core.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 0f0213c..3db943d 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2307,11 +2307,18 @@ class AffineScalarFunc(object):
 
         if use_exp:
 
-            # Not 10.**(-common_exp), for limit values of common_exp:
-            factor = 10.**common_exp
+            # Not 10.**(-common_exp), for limit values of common_exp. In
+            # addition, 10.**common_exp is null or imprecise at the lower
+            # end of the range of floats:
+            if common_exp < -300:
+                scale = 1e100
+                factor = 10.**(common_exp+100)
+            else:
+                scale = 1
+                factor = 10.**common_exp
 
-            nom_val_mantissa = nom_val/factor
-            std_dev_mantissa = std_dev/factor
+            nom_val_mantissa = nom_val*scale/factor
+            std_dev_mantissa = std_dev*scale/factor
             # Limit for the last digit of the mantissas:
             signif_limit = digits_limit - common_exp
 
-- 
2.43.0


From 10e7bd152870590b6a10d9f5e8508c69a5cb3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 30/38] fix: std_score() of NumPy numbers when the standard
 deviation is zero

---
 uncertainties/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3db943d..db453d3 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2406,6 +2406,9 @@ class AffineScalarFunc(object):
         Raises a ValueError exception if the standard deviation is zero.
         """
         try:
+            if not self.std_dev:  # Not caught by the division, with NumPy
+                raise ZeroDivisionError
+
             # The ._nominal_value is a float: there is no integer division,
             # here:
             return (value - self._nominal_value) / self.std_dev
-- 
2.43.0


From 2a8f66b1cbdc0a015f280b982ab0f262b0ad1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 31/38] fix: a linear combination remained partially expanded
 after an interruption, or when read by several threads

---
 uncertainties/core.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index db453d3..f31f1f2 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1572,7 +1572,12 @@ class LinearCombination(object):
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        while self.linear_combo:  # The list of terms is emptied progressively
+        # The terms are listed separately: the linear combination thus
+        # remains valid if its expansion is interrupted by an exception
+        # (KeyboardInterrupt, etc.), or if several threads expand it:
+        terms = [(1., self)]
+
+        while terms:  # The list of terms is emptied progressively
 
             # One of the terms is expanded or, if no expansion is
             # needed, simply added to the existing derivatives.
@@ -1584,18 +1589,22 @@ class LinearCombination(object):
             # remaining terms allows this term to be quickly put in
             # the final result, which limits the number of terms
             # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = self.linear_combo.pop()
+            (main_factor, main_expr) = terms.pop()
+
+            # Obtained only once, since another thread can expand
+            # main_expr at any time:
+            main_combo = main_expr.linear_combo
 
             # print "MAINS", main_factor, main_expr
 
-            if main_expr.expanded():
-                for (var, factor) in main_expr.linear_combo.items():
+            if isinstance(main_combo, dict):  # Expanded form
+                for (var, factor) in main_combo.items():
                     derivatives[var] += main_factor*factor
 
             else:  # Non-expanded form
-                for (factor, expr) in main_expr.linear_combo:
+                for (factor, expr) in main_combo:
                     # The main_factor is applied to expr:
-                    self.linear_combo.append((main_factor*factor, expr))
+                    terms.append((main_factor*factor, expr))
 
             # print "DERIV", derivatives
 
-- 
2.43.0


From 0d443fd093505af276a04021746204cd454a1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 32/38] fix: the derivatives of a wrapped function (or
 operator) could be exchanged when first used by several threads, or lost by
 an interruption

---
 uncertainties/core.py       | 20 ++++++++++++--------
 uncertainties/umath_core.py |  3 ++-
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f31f1f2..e54bc5e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -417,20 +417,24 @@ class IndexableIter(object):
 
         try:
 
-            return returned_elements[index]
+            value = returned_elements[index]
 
         except IndexError:  # Element not yet cached
 
-            for pos in range(len(returned_elements), index+1):
+            # The elements are obtained in a single operation, so that
+            # none is lost or misplaced in case of an interruption
+            # (KeyboardInterrupt, etc.), or when several threads need
+            # some elements:
+            num_missing = max(0, index+1-len(returned_elements))
+            returned_elements.extend(
+                itertools.islice(self.iterable, num_missing))
 
-                value = next(self.iterable)
+            value = returned_elements[index]
 
-                if value is None:
-                    value = self.none_converter(pos)
+        if value is None:
+            value = returned_elements[index] = self.none_converter(index)
 
-                returned_elements.append(value)
-
-            return returned_elements[index]
+        return value
 
     def __str__(self):
         return '<%s: [%s...]>' % (
diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 057c224..e969e24 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -261,7 +261,8 @@ for name in dir(math):
         # that cannot be calculated indicates a non-defined derivative
         # (the derivatives in fixed_derivatives must be written this way):
         wrapped_func = uncert_core.wrap(
-            func, map(uncert_core.nan_if_exception, derivatives))
+            func, [uncert_core.nan_if_exception(derivative)
+                   for derivative in derivatives])
 
     # !! The same effect could be achieved with globals()[...] = ...
     setattr(this_module, name, wraps(wrapped_func, func))
-- 
2.43.0


From 52f01c0a636a6f4d11a0e6c46e14ca9f2460c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 33/38] fix: pickling keeps private slots of subclasses, and
 ignores __weakref__

Slots with a private name (__name) are stored by Python under a mangled
name, which was not looked for: they were lost by pickle and copy.copy().
Instances of classes with a __weakref__ slot could not be copied or
unpickled (this slot is not writable).
---
 uncertainties/core.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index e54bc5e..7e0edb0 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2494,9 +2494,18 @@ class AffineScalarFunc(object):
             # Slot names can be given in various forms (string,
             # sequence, iterable):
             if isinstance(slot_names, basestring):
-                all_slots.add(slot_names)  # Single name
-            else:
-                all_slots.update(slot_names)
+                slot_names = (slot_names,)  # Single name
+
+            class_name = cls.__name__.lstrip('_')
+
+            for name in slot_names:
+                # Private names are mangled by Python:
+                if (class_name and name.startswith('__')
+                    and not name.endswith('__')):
+                    name = '_%s%s' % (class_name, name)
+                # Weak references to the object are not part of its state:
+                if name != '__weakref__':
+                    all_slots.add(name)
 
         # The slot values are stored:
         for name in all_slots:
-- 
2.43.0


From 88f3b8a972a4d0ac2aa7483b5d53978944a8e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 34/38] fix: covariances no longer overflow when only the
 variance of a variable does

covariance_matrix() raised OverflowError (or lost the covariance to
underflow) for numbers with an ordinary uncertainty that depend on a
variable with a very large (or very small) standard deviation.
---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7e0edb0..bb45ee6 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2987,7 +2987,10 @@ def covariance_matrix(nums_with_uncert):
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                # (The variance is not calculated separately, because it
+                # can overflow or underflow when the covariance does not):
+                ((derivatives1[var]*var._std_dev
+                  * (derivatives2[var]*var._std_dev))
                 # var is a variable common to both numbers with
                 # uncertainties (exact variables do not contribute, even
                 # through an undefined [NaN] derivative, like in
-- 
2.43.0


From d9594d070bca837eebb3969c2b29f7f2f5388ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 35/38] fix: results that reuse intermediate results are
 evaluated in linear time

The time was exponential in the number of steps for calculations that
use intermediate results more than once (iterations like
x = (x + a/x)/2, recurrences, etc.): each way of reaching a variable
through the intermediate results was handled separately.
---
 uncertainties/core.py | 51 +++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index bb45ee6..6d5e121 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1569,6 +1569,28 @@ class LinearCombination(object):
         yet expanded.
         """
 
+        # The expressions that are involved are first listed, because the
+        # same expression can be found several times (as in x = x+1/x,
+        # repeated many times): they must each be handled only once.
+
+        # Linear combination of each expression. It is obtained only
+        # once, since another thread can expand an expression at any
+        # time:
+        combos = {self: self.linear_combo}
+        # Number of terms in which each expression is found:
+        num_terms = {self: 0}
+
+        exprs = [self]
+        while exprs:
+            main_combo = combos[exprs.pop()]
+            if not isinstance(main_combo, dict):  # Non-expanded form
+                for (_, expr) in main_combo:
+                    if expr not in combos:
+                        combos[expr] = expr.linear_combo
+                        num_terms[expr] = 0
+                        exprs.append(expr)
+                    num_terms[expr] += 1
+
         # The derivatives are built progressively by expanding each
         # term of the linear combination until there is no linear
         # combination to be expanded.
@@ -1578,26 +1600,20 @@ class LinearCombination(object):
 
         # The terms are listed separately: the linear combination thus
         # remains valid if its expansion is interrupted by an exception
-        # (KeyboardInterrupt, etc.), or if several threads expand it:
-        terms = [(1., self)]
+        # (KeyboardInterrupt, etc.), or if several threads expand it.
+
+        # Expressions with a known factor, and factors (possibly partial
+        # ones) of the expressions:
+        terms = [self]
+        main_factors = collections.defaultdict(float, {self: 1.})
 
         while terms:  # The list of terms is emptied progressively
 
             # One of the terms is expanded or, if no expansion is
             # needed, simply added to the existing derivatives.
-            #
-            # Optimization note: since Python's operations are
-            # left-associative, a long sum of Variables can be built
-            # such that the last term is essentially a Variable (and
-            # not a NestedLinearCombination): popping from the
-            # remaining terms allows this term to be quickly put in
-            # the final result, which limits the number of terms
-            # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = terms.pop()
-
-            # Obtained only once, since another thread can expand
-            # main_expr at any time:
-            main_combo = main_expr.linear_combo
+            main_expr = terms.pop()
+            main_factor = main_factors.pop(main_expr)
+            main_combo = combos[main_expr]
 
             # print "MAINS", main_factor, main_expr
 
@@ -1608,7 +1624,10 @@ class LinearCombination(object):
             else:  # Non-expanded form
                 for (factor, expr) in main_combo:
                     # The main_factor is applied to expr:
-                    terms.append((main_factor*factor, expr))
+                    main_factors[expr] += main_factor*factor
+                    num_terms[expr] -= 1
+                    if not num_terms[expr]:  # The factor is complete
+                        terms.append(expr)
 
             # print "DERIV", derivatives
 
-- 
2.43.0


From 127186309f21acce7902c9fe16f9e5a08724ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 36/38] fix: many digits in the uncertainty of the shorthand
 notation

The uncertainty was multiplied by a power of 10, which overflowed with more
than 308 digits after the decimal point (e.g. '{:.320fS}') and gave incorrect
digits when there are more than 17.
---
 uncertainties/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 6d5e121..5af0151 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1238,10 +1238,11 @@ def format_num(nom_val_main, error_main, common_exp,
 
             else:
                 if uncert:
-                    # The round is important because 566.99999999 can
-                    # first be obtained when 567 is wanted (%d prints the
-                    # integer part, not the rounded value):
-                    uncert_str = '%d' % round(uncert*10.**prec)
+                    # The digits of the uncertainty are obtained without
+                    # multiplying it by a power of 10, which is imprecise
+                    # with many digits, and can overflow:
+                    uncert_str = (
+                        '%.*f' % (prec, uncert)).replace('.', '').lstrip('0')
                 else:
                     # The decimal point indicates a truncated float
                     # (this is easy to do, in this case, since
-- 
2.43.0


From 752014605fb60685d378f181356ba6c609b1f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 37/38] fix: reading shorthand uncertainties with more than 308
 digits after the point

The power of 10 overflowed, so that a text printed by format() (such as that of
1e-308+/-1e-308 in the format 'fS') could not be read.
---
 uncertainties/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 5af0151..84d8fd6 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3153,7 +3153,9 @@ def parse_error_in_parentheses(representation):
         else:
             num_digits_after_period = len(main_dec)-1
 
-        uncert_value = int(uncert_int)/10.**num_digits_after_period
+        # (There is no division by a power of 10, which would overflow with
+        # many digits):
+        uncert_value = float('%se-%d' % (uncert_int, num_digits_after_period))
 
     # We apply the exponent to the uncertainty as well:
     uncert_value *= factor
-- 
2.43.0


From f56faf255fef16cf439b4be0cb21da86922af59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 38/38] fix: format specifications that end with a newline are
 invalid

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 84d8fd6..a5c7df4 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2071,7 +2071,7 @@ class AffineScalarFunc(object):
             # The type can be omitted. Options must not go here:
             (?P<type>[eEfFgG%]??)  # n not supported
             (?P<options>[PSLp]*)  # uncertainties-specific flags
-            $''',
+            \Z''',  # Not $, which also matches before a final newline
             format_spec,
             re.VERBOSE)
 
-- 
2.43.0

