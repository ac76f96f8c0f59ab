From ef7434fae3ad1898a6e0409dc84b34da57334bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 01/36] fix: umath.frexp() returned a mantissa with an unusable
 linear part

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From d17654fd409f620a27c0309287ffdeedb296aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 02/36] fix: the '=' alignment option raised ValueError when
 formatting

---
 uncertainties/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..006242e 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -967,6 +967,16 @@ def robust_align(orig_str, fill_char, align_option, width):
     # print "ALIGNING", repr(orig_str), "WITH", fill_char+align_option,
     # print "WIDTH", width
 
+    if align_option == '=':
+        # Strings cannot be aligned with '=': the padding is put after
+        # the sign (if any), like for numbers:
+        sign = orig_str[:1] if orig_str[:1] in ('+', '-', ' ') else ''
+        unsigned = orig_str[len(sign):]
+        if not width:
+            return orig_str
+        return sign+format(
+            unsigned, '%s>%d' % (fill_char, max(int(width)-len(sign), 0)))
+
     return format(orig_str, fill_char+align_option+width)
 
 # Maps some Unicode code points ("-", "+", and digits) to their
-- 
2.43.0


From 2d0fea73363c6f4d4430e75f64e0ea3d19eabe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 03/36] fix: modulo of a non-float constant by a number with
 uncertainty

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 006242e..4cc449b 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2531,7 +2531,7 @@ def get_ops_with_reflection():
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y**2")
-- 
2.43.0


From 0bf5e2f6b07e46e3c9fcaa3365f765073f3ec66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 04/36] fix: a standard deviation of -inf was accepted

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 4cc449b..16c9bc3 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2793,7 +2793,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0:
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From dba98452fea058800cb5c1d4412f7f01d2e3ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 05/36] fix: covariances were NaN for undefined derivatives of
 exact variables

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 16c9bc3..ba7b5a7 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2921,7 +2921,10 @@ def covariance_matrix(nums_with_uncert):
                 ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
                 # var is a variable common to both numbers with
                 # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                for var in vars1.intersection(derivatives2)
+                # Exact variables do not contribute (even if some
+                # derivative is NaN), like in error_components():
+                if var._std_dev != 0),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From 7109ae21f85f60ecc29ee3cbd975b69377568264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 06/36] fix: errors in numerical derivatives of umath functions
 now give NaN

---
 uncertainties/umath_core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..1098d64 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -244,7 +244,12 @@ for name in dir(math):
     elif name in num_deriv_funcs:
         # Functions whose derivatives are calculated numerically by
         # this module fall here (isinf, fmod,...):
-        derivatives = []  # Means: numerical calculation required
+        # Numerical calculation required. It is explicitly requested
+        # so that any error is converted to NaN, below (no function has
+        # more than 2 arguments):
+        derivatives = [
+            uncert_core.partial_derivative(getattr(math, name), arg_num)
+            for arg_num in range(2)]
     elif name not in locally_cst_funcs:
         continue  # 'name' not wrapped by this module (__doc__, e, etc.)
 
-- 
2.43.0


From 582a831e9521e88737a8ad32748ba9ff291e2dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 07/36] fix: concurrent evaluations of shared expressions
 corrupted the derivatives

---
 uncertainties/core.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index ba7b5a7..e3b542c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1546,10 +1546,21 @@ class LinearCombination(object):
 
         The expansion is a collections.defaultdict(float).
 
-        This should only be called if the linear combination is not
-        yet expanded.
+        The new form is set in a single assignment, and the previous
+        one is not modified: other threads can thus use the linear
+        combination while it is being expanded.
+
+        The linear combination can already be expanded (for instance by
+        another thread); in this case, nothing is done.
         """
 
+        terms = self.linear_combo
+
+        if isinstance(terms, dict):  # Already expanded
+            return
+
+        terms = list(terms)  # Emptied below
+
         # The derivatives are built progressively by expanding each
         # term of the linear combination until there is no linear
         # combination to be expanded.
@@ -1557,7 +1568,7 @@ class LinearCombination(object):
         # Final derivatives, constructed progressively:
         derivatives = collections.defaultdict(float)
 
-        while self.linear_combo:  # The list of terms is emptied progressively
+        while terms:  # The list of terms is emptied progressively
 
             # One of the terms is expanded or, if no expansion is
             # needed, simply added to the existing derivatives.
@@ -1569,21 +1580,28 @@ class LinearCombination(object):
             # remaining terms allows this term to be quickly put in
             # the final result, which limits the number of terms
             # remaining (and whose size can temporarily grow):
-            (main_factor, main_expr) = self.linear_combo.pop()
+            (main_factor, main_expr) = terms.pop()
+
+            # Read only once, because another thread might change it:
+            main_combo = main_expr.linear_combo
 
             # print "MAINS", main_factor, main_expr
 
-            if main_expr.expanded():
-                for (var, factor) in main_expr.linear_combo.items():
+            if isinstance(main_combo, dict):  # Expanded form
+                for (var, factor) in main_combo.items():
                     derivatives[var] += main_factor*factor
 
             else:  # Non-expanded form
-                for (factor, expr) in main_expr.linear_combo:
+                for (factor, expr) in main_combo:
                     # The main_factor is applied to expr:
-                    self.linear_combo.append((main_factor*factor, expr))
+                    terms.append((main_factor*factor, expr))
 
             # print "DERIV", derivatives
 
+        # Attempts to get the contribution of a variable that the
+        # combination does not depend on raise a KeyError:
+        derivatives.default_factory = None
+
         self.linear_combo = derivatives
 
     def __getstate__(self):
@@ -1706,9 +1724,6 @@ class AffineScalarFunc(object):
 
         if not self._linear_part.expanded():
             self._linear_part.expand()
-            # Attempts to get the contribution of a variable that the
-            # function does not depend on raise a KeyError:
-            self._linear_part.linear_combo.default_factory = None
 
         return self._linear_part.linear_combo
 
-- 
2.43.0


From 53422cfa7668e294cdca06aef76d30b612cb177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 08/36] fix: long calculations could not be pickled or
 deep-copied

---
 uncertainties/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index e3b542c..1e29ba9 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1605,6 +1605,10 @@ class LinearCombination(object):
         self.linear_combo = derivatives
 
     def __getstate__(self):
+        # The expanded form is not nested: it can be pickled and
+        # (deep) copied without reaching the recursion limit, however
+        # long the calculation:
+        self.expand()
         # Not false, otherwise __setstate__() will not be called:
         return (self.linear_combo,)
 
-- 
2.43.0


From 815ef9121cad0c97714466decc63d41422f7c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 09/36] fix: wrap() shifted the derivatives of bound methods
 called with keywords

---
 uncertainties/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1e29ba9..4e0c13f 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -590,7 +590,11 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        # The first parameter of a bound method (self) is not given in
+        # calls:
+        arg_names = argspec.args[1:] if inspect.ismethod(f) else argspec.args
+
+        for (index, name) in enumerate(arg_names):
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From 70a8eb7cf6e8d6f4c4c87c499646c097182ba232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 10/36] fix: numbers with an empty exponent were parsed

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 4e0c13f..f4902f2 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3058,7 +3058,7 @@ def parse_error_in_parentheses(representation):
                              % representation)
 
     # Global exponent:
-    if exponent:
+    if exponent is not None:
         factor = 10.**nrmlze_superscript(exponent)
     else:
         factor = 1
-- 
2.43.0


From bd32ae8860699a7cdf8c5c1fe99d2c01c9dbbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 11/36] fix: the common exponent of (1.2(3))e5 was silently
 ignored when parsing

---
 uncertainties/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f4902f2..7bdaffc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3192,7 +3192,9 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            parsed_value = tuple(
+                value*factor
+                for value in parse_error_in_parentheses(representation))
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-- 
2.43.0


From 2b40585d6dab04612be22da758558cd5fc80b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 12/36] fix: comparing a number with uncertainty to a complex
 number raised TypeError

---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7bdaffc..440f33c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -281,7 +281,8 @@ def to_affine_scalar(x):
     if isinstance(x, AffineScalarFunc):
         return x
 
-    if isinstance(x, CONSTANT_TYPES):
+    # (Complex numbers are never numbers with uncertainty.)
+    if isinstance(x, CONSTANT_TYPES) and not isinstance(x, complex):
         # No variable => no derivative:
         return AffineScalarFunc(x, LinearCombination({}))
 
-- 
2.43.0


From a76d1cb8d555d4e97e86a570cbd8a2544dbf4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 13/36] fix: unumpy.arcsinh was only available under its math
 module name (asinh)

---
 uncertainties/unumpy/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..2e4b522 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -726,3 +726,7 @@ Original documentation:
         __all__.append(unumpy_name)
 
 define_vectorized_funcs()
+
+# NumPy's name for asinh() (which is kept for backward compatibility):
+arcsinh = asinh
+__all__.append('arcsinh')
-- 
2.43.0


From 699ac1cd81441ee53358e6c26432b76ade3aab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 14/36] fix: 1to2 broke uarray()/umatrix() calls with a
 starred, keyword or generator argument

---
 uncertainties/lib1to2/fixes/fix_uarray_umatrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index a47284a..b3f79fb 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -64,7 +64,10 @@ class FixUarrayUmatrix(BaseFix):
             args_node = results['args']
 
             # We must make sure that there is a single argument:
-            if args_node.type == syms.arglist:
+            # (syms.argument: starred, keyword or generator argument,
+            # in front of which no star can be put. This includes code
+            # that was already converted.)
+            if args_node.type in (syms.arglist, syms.argument):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-- 
2.43.0


From 1498e6bb804ed21f1630916b4a8c0f0f1e16524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 15/36] fix: 1to2 did not convert x.std_dev() when followed by
 a power, an attribute, etc.

---
 uncertainties/lib1to2/fixes/fix_std_dev.py  | 19 ++++++++++++++++---
 uncertainties/lib1to2/fixes/fix_std_devs.py |  6 ++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index fd15912..cd255d6 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -9,10 +9,22 @@ Transforms .std_dev() calls into .std_dev attribute access.
 from lib2to3.fixer_base import BaseFix
 from lib2to3.fixer_util import Name, Assign
 
+def remove_empty_calls(node, attr_name):
+    '''
+    Remove from the given power node all the calls with no argument
+    that directly follow an access to the given attribute.
+    '''
+    for (attribute, call) in zip(node.children[:-1], node.children[1:]):
+        if all([getattr(child, 'value', None) for child in part.children]
+               == expected
+               for (part, expected) in [(attribute, ['.', attr_name]),
+                                        (call, ['(', ')'])]):
+            call.remove()
+
 class FixStdDev(BaseFix):
     
     PATTERN = """
-    power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > any* >
     |
     power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
     """
@@ -33,6 +45,7 @@ class FixStdDev(BaseFix):
             
         else:
             # '.std_dev' is followed by a call with no argument: the call
-            # is removed:
-            node.children[-1].remove()
+            # is removed (there can be something after the call, like an
+            # exponent or an attribute access):
+            remove_empty_calls(node, 'std_dev')
         
diff --git a/uncertainties/lib1to2/fixes/fix_std_devs.py b/uncertainties/lib1to2/fixes/fix_std_devs.py
index 31afaf7..299b35e 100644
--- a/uncertainties/lib1to2/fixes/fix_std_devs.py
+++ b/uncertainties/lib1to2/fixes/fix_std_devs.py
@@ -9,14 +9,16 @@ Transform .std_devs() calls into .std_devs attribute access.
 from lib2to3.fixer_base import BaseFix
 from lib2to3.fixer_util import Name, Assign
 
+from .fix_std_dev import remove_empty_calls
+
 class FixStdDevs(BaseFix):
 
     PATTERN = """
-    power< any* trailer< '.' 'std_devs' > trailer< '(' ')' > >
+    power< any* trailer< '.' 'std_devs' > trailer< '(' ')' > any* >
     """
 
     def transform(self, node, results):
 
         # '.std_dev' is followed by a call with no argument: the call
         # is removed:
-        node.children[-1].remove()
+        remove_empty_calls(node, 'std_devs')
-- 
2.43.0


From 69d952e52bd847f267fd0300a38bd81611928579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 16/36] fix: 1to2 wrote invalid or wrong code for set_std_dev()
 calls that are not simple statements

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index cd255d6..df07a64 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -7,7 +7,7 @@ Transforms .std_dev() calls into .std_dev attribute access.
 '''
 
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign
+from lib2to3.fixer_util import Name, Assign, syms
 
 def remove_empty_calls(node, attr_name):
     '''
@@ -33,15 +33,28 @@ class FixStdDev(BaseFix):
 
         if 'set_arg' in results:  # Case of .set_std_dev()
 
+            # An assignment can only replace a whole statement, and only
+            # a single positional argument can be assigned:
+            if (node.parent.type not in (syms.simple_stmt, syms.file_input)
+                or results['set_arg'].type in (syms.arglist, syms.argument)):
+                return
+
             # set_std_dev => std_dev
             attribute = node.children[-2]  # .set_std_dev
             attribute.children[1].replace(Name('std_dev'))
 
             # Call "(arg)": removed
-            node.children[-1].remove()
+            call = node.children[-1]
+            call.remove()
 
             # Replacement by an assignment:
-            node.replace(Assign(node.clone(), results['set_arg'].clone()))
+            # (the node is not copied, so that it and its argument can
+            # also be updated by the other fixers):
+            set_arg = results['set_arg']
+            set_arg.remove()
+            placeholder = Name('')
+            node.replace(placeholder)
+            placeholder.replace(Assign(node, set_arg))
             
         else:
             # '.std_dev' is followed by a call with no argument: the call
-- 
2.43.0


From 511bc1da480b0a5cb10e3307bd2ee64fc259246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 17/36] fix: umath.hypot() only accepted quantities in its
 two-argument form

---
 uncertainties/umath_core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 1098d64..c2ae012 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -175,6 +175,14 @@ def _deriv_pow_1(x, y):
     else:
         return math.log(x) * math.pow(x, y)
 
+def _deriv_hypot(arg_num):
+    """
+    Derivative of math.hypot() with respect to the given argument.
+
+    Works for any number of arguments (like math.hypot() itself).
+    """
+    return lambda *args: args[arg_num]/math.hypot(*args)
+
 erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 
 fixed_derivatives = {
@@ -197,8 +205,7 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-    'hypot': [lambda x, y: x/math.hypot(x, y),
-              lambda x, y: y/math.hypot(x, y)],
+    'hypot': map(_deriv_hypot, itertools.count()),  # Any number of arguments
     'log': [log_der0,
             lambda x, y: -math.log(x, y)/y/math.log(y)],
     'log10': [lambda x: 1/x/math.log(10)],
-- 
2.43.0


From f66bd892d80d42b7e1cd3c53be30ab4820d4d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 18/36] fix: umath.frexp() and ldexp() refused quantities that
 depend on no variable

---
 uncertainties/umath_core.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index c2ae012..6202d75 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -378,12 +378,9 @@ def ldexp(x, i):
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
 
-        # aff_func.nominal_value is not passed instead of x, because
-        # we do not have to care about the type of the return value of
-        # math.ldexp, this way (aff_func.nominal_value might be the
-        # value of x coerced to a difference type [int->float, for
-        # instance]):
-        return math.ldexp(x, i)
+        # (or it is a quantity that does not depend on any variable,
+        # which math.ldexp() would refuse, hence the nominal value):
+        return math.ldexp(aff_func.nominal_value, i)
 many_scalars_to_scalar_funcs.append('ldexp')
 
 @uncert_core.set_doc(math.frexp.__doc__)
@@ -414,7 +411,9 @@ def frexp(x):
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
-        return math.frexp(x)
+        # (or it is a quantity that does not depend on any variable,
+        # which math.frexp() would refuse, hence the nominal value):
+        return math.frexp(aff_func.nominal_value)
 non_std_wrapped_funcs.append('frexp')
 
 ###############################################################################
-- 
2.43.0


From ff9028e5cd4f349a4cff322bc5e9817f25b11c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 19/36] fix: the precision was ignored when formatting with an
 undefined uncertainty

---
 uncertainties/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 440f33c..1e92b61 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1166,6 +1166,11 @@ def format_num(nom_val_main, error_main, common_exp,
     # over common_exp):
     special_error = not error_main or isinfinite(error_main)
 
+    # End of the format specification given by the user (precision and type):
+    float_suffix = fmt_parts['type']
+    if fmt_parts['prec']:
+        float_suffix = '.'+fmt_parts['prec']+float_suffix
+
     # Nicer representation of the main nominal part, with no trailing
     # zeros, when the error does not have a defined number of
     # significant digits:
@@ -1174,7 +1179,7 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        fmt_suffix_n = float_suffix
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1384,7 +1389,7 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                fmt_suffix_e = float_suffix
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 1f2d891d7540ef933277ee7009c692ba94a77a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:29 +0000
Subject: [PATCH 20/36] fix: unumpy matrices could not be multiplied by a
 quantity on their right

---
 uncertainties/unumpy/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 2e4b522..1b71541 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -614,6 +614,13 @@ class matrix(numpy.matrix):
         else:
             return numeric.dot(other, self)  # The order is important
 
+    def __mul__(self, other):
+        # NumPy's matrix __mul__ does not consider numbers with
+        # uncertainties as scalars (contrary to __rmul__()):
+        if isinstance(other, uncert_core.AffineScalarFunc):
+            return numeric.dot(self, other)
+        return super(matrix, self).__mul__(other)
+
     def getI(self):
         """Matrix inverse or pseudo-inverse."""
         m, n = self.shape
-- 
2.43.0


From 00112f0c3f3aa481678a34dd6c90a4d71a646e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 21/36] fix: 1to2 wrote invalid code for set_std_dev() calls
 with an argument on several lines

---
 uncertainties/lib1to2/fixes/fix_std_dev.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index df07a64..85aa52c 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -7,7 +7,7 @@ Transforms .std_dev() calls into .std_dev attribute access.
 '''
 
 from lib2to3.fixer_base import BaseFix
-from lib2to3.fixer_util import Name, Assign, syms
+from lib2to3.fixer_util import Name, Assign, parenthesize, syms
 
 def remove_empty_calls(node, attr_name):
     '''
@@ -52,6 +52,11 @@ class FixStdDev(BaseFix):
             # also be updated by the other fixers):
             set_arg = results['set_arg']
             set_arg.remove()
+            set_arg.prefix = ''
+            # Outside of the call, an expression can only span multiple
+            # lines inside parentheses:
+            if '\n' in str(set_arg):
+                set_arg = parenthesize(set_arg)
             placeholder = Name('')
             node.replace(placeholder)
             placeholder.replace(Assign(node, set_arg))
-- 
2.43.0


From 0ef88658416b22ba45cf476387e75bf47e171540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 22/36] fix: concurrent first calls of wrapped functions mixed
 up their derivatives

---
 uncertainties/core.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1e92b61..d85343c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -38,6 +38,7 @@ import itertools
 import inspect
 import numbers
 import collections
+import threading
 
 # The following restricts the local function getargspec() to the common
 # features of inspect.getargspec() and inspect.getfullargspec():
@@ -407,6 +408,9 @@ class IndexableIter(object):
         self.iterable = iterable
         self.returned_elements = []
         self.none_converter = none_converter
+        # The elements must be obtained in order, even when several
+        # threads access them:
+        self.lock = threading.RLock()
 
     def __getitem__(self, index):
 
@@ -418,14 +422,21 @@ class IndexableIter(object):
 
         except IndexError:  # Element not yet cached
 
-            for pos in range(len(returned_elements), index+1):
+            self.lock.acquire()
 
-                value = next(self.iterable)
+            try:
+
+                for pos in range(len(returned_elements), index+1):
+
+                    value = next(self.iterable)
+
+                    if value is None:
+                        value = self.none_converter(pos)
 
-                if value is None:
-                    value = self.none_converter(pos)
+                    returned_elements.append(value)
 
-                returned_elements.append(value)
+            finally:
+                self.lock.release()
 
             return returned_elements[index]
 
-- 
2.43.0


From 8b2b762807f0c06c82879b7b06fabebb0d6eb439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 23/36] fix: umath.atan2() gave wrong uncertainties with some
 NumPy integers

---
 uncertainties/umath_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 6202d75..fb1e829 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -192,8 +192,10 @@ fixed_derivatives = {
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
     'asinh': [lambda x: 1/math.sqrt(1+x**2)],
     'atan': [lambda x: 1/(1+x**2)],
-    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0
-              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0
+    # (float() because the operations on some NumPy integers, which are
+    # accepted by math.atan2(), can overflow:)
+    'atan2': [lambda y, x: x/(float(x)**2+float(y)**2),  # Correct for x == 0
+              lambda y, x: -float(y)/(float(x)**2+float(y)**2)],
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
-- 
2.43.0


From 36e1a7f6c587c159cc9e83562bd725cd4a0b5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 24/36] fix: division by very large or small numbers with
 uncertainty raised OverflowError or ZeroDivisionError

---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index d85343c..780e24b 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2567,14 +2567,14 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-(x/y)/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
         'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-(x/y)/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From b1c381da3124110f33bac91c880e8d5e77cf22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 25/36] fix: the uncertainty on x % y was wrong for large x/y

---
 uncertainties/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 780e24b..cb3ef02 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2569,9 +2569,10 @@ def get_ops_with_reflection():
         # floats, and is therefore the "usual" mathematical division.
         'div': ("1/y", "-(x/y)/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
-        # The derivative wrt the 2nd arguments is something like (..., x//y),
-        # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
+        # The derivative wrt the 2nd argument is not calculated
+        # numerically: it would be meaningless for a large x/y, because
+        # of discontinuities:
+        'mod': ("1.", "-(float(x)//y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-(x/y)/y")
-- 
2.43.0


From 0cba60a473987b28bb6babf1e6abc188e1c48abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 26/36] fix: the uncertainty on umath.fmod(x, y) was wrong for
 large x/y

---
 uncertainties/umath_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fb1e829..6f5a62c 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -59,7 +59,7 @@ many_scalars_to_scalar_funcs = []
 # Functions with numerical derivatives:
 #
 # !! Python2.7+: {..., ...}
-num_deriv_funcs = set(['fmod', 'gamma', 'lgamma'])
+num_deriv_funcs = set(['gamma', 'lgamma'])
 
 # Functions are by definition locally constant (on real
 # numbers): their value does not depend on the uncertainty (because
@@ -207,6 +207,9 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
+    # (A numerical derivative would be meaningless for a large x/y,
+    # because of discontinuities:)
+    'fmod': [lambda x, y: 1., lambda x, y: (math.fmod(x, y)-float(x))/y],
     'hypot': map(_deriv_hypot, itertools.count()),  # Any number of arguments
     'log': [log_der0,
             lambda x, y: -math.log(x, y)/y/math.log(y)],
-- 
2.43.0


From 64546aaddfbb6df2b868afe5f418d922d416279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 27/36] fix: umath functions of very large or small numbers had
 undefined uncertainties

---
 uncertainties/umath_core.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 6f5a62c..1805811 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -188,22 +188,23 @@ erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 fixed_derivatives = {
     # In alphabetical order, here:
     'acos': [lambda x: -1/math.sqrt(1-x**2)],
-    'acosh': [lambda x: 1/math.sqrt(x**2-1)],
+    'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)],
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
-    'asinh': [lambda x: 1/math.sqrt(1+x**2)],
-    'atan': [lambda x: 1/(1+x**2)],
+    'asinh': [lambda x: 1/math.hypot(1, x)],
+    'atan': [lambda x: 1/(1+x*x)],
     # (float() because the operations on some NumPy integers, which are
-    # accepted by math.atan2(), can overflow:)
-    'atan2': [lambda y, x: x/(float(x)**2+float(y)**2),  # Correct for x == 0
-              lambda y, x: -float(y)/(float(x)**2+float(y)**2)],
+    # accepted by math.atan2(), can overflow. hypot() because the squares
+    # of floats can overflow or underflow.)
+    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),
+              lambda y, x: -float(y)/math.hypot(x, y)/math.hypot(x, y)],
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
     'cosh': [math.sinh],
     'degrees': [lambda x: math.degrees(1)],
-    'erf': [lambda x: math.exp(-x**2)*erf_coef],
-    'erfc': [lambda x: -math.exp(-x**2)*erf_coef],
+    'erf': [lambda x: math.exp(-x*x)*erf_coef],
+    'erfc': [lambda x: -math.exp(-x*x)*erf_coef],
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-- 
2.43.0


From 0390a7e9edd55a5b840badfacf502518e4ccdeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 28/36] fix: umath.ldexp() and frexp() gave quantities with an
 unusable uncertainty for large exponents

---
 uncertainties/umath_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 1805811..e2b9518 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -368,6 +368,11 @@ def modf(x):
         return (frac_part, int_part)
 many_scalars_to_scalar_funcs.append('modf')
 
+# 2**i, for the derivatives: like all the derivatives, it is NaN when it
+# cannot be calculated (it can be too large for a float even if the
+# result of the function is not):
+power_of_2 = uncert_core.nan_if_exception(lambda i: math.ldexp(1, i))
+
 @uncert_core.set_doc(math.ldexp.__doc__)
 def ldexp(x, i):
     # Another approach would be to add an additional argument to
@@ -379,7 +384,7 @@ def ldexp(x, i):
     if aff_func._linear_part:
         return AffineScalarFunc(
             math.ldexp(aff_func.nominal_value, i),
-            LinearCombination([(2**i, aff_func._linear_part)]))
+            LinearCombination([(power_of_2(i), aff_func._linear_part)]))
     else:
         # This function was not called with an AffineScalarFunc
         # argument: there is no need to return numbers with uncertainties:
@@ -410,7 +415,8 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([(2**-exponent, aff_func._linear_part)])),
+                LinearCombination([
+                    (power_of_2(-exponent), aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From 83d07531ea84a25533633d10e7710c30677ed076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 29/36] fix: very large or very small standard deviations
 raised OverflowError or were 0

---
 uncertainties/core.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index cb3ef02..9f01856 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1881,8 +1881,23 @@ class AffineScalarFunc(object):
         #std_dev value (in fact, many intermediate AffineScalarFunc do
         #not need to have their std_dev calculated: only the final
         #AffineScalarFunc returned to the user does).
-        return CallableStdDev(sqrt(sum(
-            delta**2 for delta in self.error_components().values())))
+        components = list(self.error_components().values())
+
+        try:
+            variance = sum(delta**2 for delta in components)
+        except OverflowError:
+            variance = float('inf')
+
+        # The square of very small or very large components cannot be
+        # represented (correctly): the components are scaled, if possible:
+        if variance < 1e-280 or isinf(variance):
+            scale = max([0]+[delta for delta in components
+                             if not isnan(delta)])
+            if scale and not isinf(scale):
+                return CallableStdDev(scale*sqrt(sum(
+                    (delta/scale)**2 for delta in components)))
+
+        return CallableStdDev(sqrt(variance))
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From 577cabeab00209d66ad77c36620ea8cffc606f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 30/36] fix: covariances of quantities with very large or small
 values raised OverflowError or were NaN

---
 uncertainties/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 9f01856..c24fdac 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2974,7 +2974,9 @@ def covariance_matrix(nums_with_uncert):
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                # (This order prevents needless overflows and underflows.)
+                ((derivatives1[var]*var._std_dev
+                  * (derivatives2[var]*var._std_dev))
                 # var is a variable common to both numbers with
                 # uncertainties:
                 for var in vars1.intersection(derivatives2)
-- 
2.43.0


From 9e0db905b84e945d93d798752ecf1d59b5df1955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 31/36] fix: private slot attributes of subclasses were lost
 when pickling

---
 uncertainties/core.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index c24fdac..7c7ebf3 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2483,14 +2483,20 @@ class AffineScalarFunc(object):
 
             # In the diamond inheritance pattern, some parent classes
             # may not have __slots__:
-            slot_names = getattr(cls, '__slots__', ())
+            slot_names = cls.__dict__.get('__slots__', ())
 
             # Slot names can be given in various forms (string,
             # sequence, iterable):
             if isinstance(slot_names, basestring):
-                all_slots.add(slot_names)  # Single name
-            else:
-                all_slots.update(slot_names)
+                slot_names = (slot_names,)  # Single name
+
+            for name in slot_names:
+                # Private names are mangled by Python:
+                if name.startswith('__') and not name.endswith('__'):
+                    class_name = cls.__name__.lstrip('_')
+                    if class_name:
+                        name = '_%s%s' % (class_name, name)
+                all_slots.add(name)
 
         # The slot values are stored:
         for name in all_slots:
-- 
2.43.0


From 7c79da0931caf9ab56e5069ed6c9c67b8f6a545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 32/36] fix: instances of subclasses with a __weakref__ slot
 could not be unpickled

---
 uncertainties/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7c7ebf3..a57bbe9 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2498,6 +2498,10 @@ class AffineScalarFunc(object):
                         name = '_%s%s' % (class_name, name)
                 all_slots.add(name)
 
+        # Weak references are not part of the state (and the __weakref__
+        # attribute cannot be set):
+        all_slots.discard('__weakref__')
+
         # The slot values are stored:
         for name in all_slots:
             try:
-- 
2.43.0


From 09c9abb55a56cce5e4b30212076b9b5d3fc036f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 33/36] fix: 1to2 did not convert calls with a trailing comma
 or with a function name in a subpackage

---
 uncertainties/lib1to2/fixes/fix_std_dev.py    |  3 +-
 .../lib1to2/fixes/fix_uarray_umatrix.py       | 40 +++++-----
 uncertainties/lib1to2/fixes/fix_ufloat.py     | 74 +++++++------------
 3 files changed, 48 insertions(+), 69 deletions(-)

diff --git a/uncertainties/lib1to2/fixes/fix_std_dev.py b/uncertainties/lib1to2/fixes/fix_std_dev.py
index 85aa52c..370bb92 100644
--- a/uncertainties/lib1to2/fixes/fix_std_dev.py
+++ b/uncertainties/lib1to2/fixes/fix_std_dev.py
@@ -26,7 +26,8 @@ class FixStdDev(BaseFix):
     PATTERN = """
     power< any* trailer< '.' 'std_dev' > trailer< '(' ')' > any* >
     |
-    power< any* trailer< '.' 'set_std_dev' > trailer< '(' set_arg=any ')' > >
+    power< any* trailer< '.' 'set_std_dev' >
+           trailer< '(' (arglist< set_arg=any ',' > | set_arg=any) ')' > >
     """
     
     def transform(self, node, results):
diff --git a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
index b3f79fb..5418b6c 100644
--- a/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
+++ b/uncertainties/lib1to2/fixes/fix_uarray_umatrix.py
@@ -15,41 +15,43 @@ from lib2to3.fixer_util import String, ArgList, Comma, syms
 
 #! Warning: indentation is meaningful!
 
-# (tuple):
-tuple_call = """
-        trailer< '('
-            atom< '(' testlist_gexp< arg0=any ',' arg1=any > ')' >
-        ')' >"""
+# Trailing commas are accepted in the tuple and after the argument.
+
+# tuple:
+tuple_arg = """
+        atom< '(' testlist_gexp< arg0=any ',' arg1=any [','] > ')' >"""
+
+# (tuple) and (single_arg):
+tuple_call, single_call = [
+    """
+        call=trailer< '(' (arglist< {arg} ',' > | {arg}) ')' >""".format(arg=arg)
+    for arg in [tuple_arg, "args=any"]]
 
 
 ###############################################################################
 
 class FixUarrayUmatrix(BaseFix):
 
-    # Non dotted access, then dotted access.
+    # Non dotted access, then dotted access (un.uarray(),
+    # package.un.uarray(),...).
     # Tuple call, then single-argument call
     PATTERN = """
         power< 'uarray' {tuple_call} any* >
         |
-        power< object=NAME trailer< '.' 'uarray' > {tuple_call} any* >
+        power< NAME trailer< '.' NAME >* trailer< '.' 'uarray' >
+        {tuple_call} any* >
         |
-        power< 'uarray' trailer< '(' args=any ')' > any* >
+        power< 'uarray' {single_call} any* >
         |
-        power< object=NAME trailer< '.' 'uarray' >
-            trailer< '(' args=any ')' >
-        any* >
-        """.format(tuple_call=tuple_call)
+        power< NAME trailer< '.' NAME >* trailer< '.' 'uarray' >
+        {single_call} any* >
+        """.format(tuple_call=tuple_call, single_call=single_call)
 
     # Same pattern, for umatrix():
     PATTERN = '{}|{}'.format(PATTERN, PATTERN.replace('uarray', 'umatrix'))
     
     def transform(self, node, results):
 
-        if 'object' in results:  # If dotted access: unc.uarray()
-            args = node.children[2]
-        else:
-            args = node.children[1]
-
         if 'args' in results: # Non-tuple argument
 
             # A star will be inserted in from of the single argument:
@@ -71,7 +73,7 @@ class FixUarrayUmatrix(BaseFix):
                 return  # Nothing modified
 
             # Single argument (in position 1):
-            new_args = [String('*'), args.children[1].clone()]
+            new_args = [String('*'), args_node.clone()]
             
         else:  # Tuple argument
 
@@ -80,4 +82,4 @@ class FixUarrayUmatrix(BaseFix):
                         Comma(), results['arg1'].clone()]
             
         # Argument list update:
-        args.replace(ArgList(new_args))
+        results['call'].replace(ArgList(new_args))
diff --git a/uncertainties/lib1to2/fixes/fix_ufloat.py b/uncertainties/lib1to2/fixes/fix_ufloat.py
index a6e92f7..153884d 100644
--- a/uncertainties/lib1to2/fixes/fix_ufloat.py
+++ b/uncertainties/lib1to2/fixes/fix_ufloat.py
@@ -15,56 +15,39 @@ from lib2to3.fixer_util import ArgList, Call, Comma, Name, syms
 
 #! Warning: indentation is meaningful!
 
-# (tuple):
-tuple_call = """
-        trailer< '('
-            atom< '(' testlist_gexp< arg0=any ',' arg1=any > ')' >
-        ')' >"""
-
-# (tuple, any):
-tuple_any_call = """
-        trailer< '('
-            arglist<
-                atom< '(' testlist_gexp< arg0=any ',' arg1=any > ')' >
-                ',' tag=any
-            >
-        ')' >"""
+# Trailing commas are accepted in tuples and after the last argument.
+
+# tuple:
+tuple_arg = """
+        atom< '(' testlist_gexp< arg0=any ',' arg1=any [','] > ')' >"""
+
+# (tuple) or (tuple, any), and (string) or (string, any):
+tuple_call, string_call = [
+    """
+        call=trailer< '('
+            ({arg} | arglist< {arg} ',' [tag=any [',']] >)
+        ')' >""".format(arg=arg)
+    for arg in [tuple_arg, "string=STRING"]]
 
 
 ###############################################################################
 
 class FixUfloat(BaseFix):
 
-    # Non dotted access, then dotted access.
-    # Tuple call, then string call.
-    # No-tag call, then tag call.
+    # Non dotted access, then dotted access (unc.ufloat(),
+    # package.unc.ufloat(),...).
+    # Tuple call, then string call (with or without a tag).
     PATTERN = """
-        power< 'ufloat' {tuple_call} any* >
-        |
-        power< 'ufloat' {tuple_any_call} any* >
-        |
-        power< 'ufloat' trailer< '(' string=STRING ')' > any* >
+        power< func='ufloat' {tuple_call} any* >
         |
-        power< 'ufloat' trailer< '('
-            arglist<
-                string=STRING
-                ',' tag=any
-            >
-        ')' > any* >
+        power< func='ufloat' {string_call} any* >
         |
-        power< object=NAME trailer< '.' 'ufloat' > {tuple_call} any* >
+        power< NAME trailer< '.' NAME >* trailer< '.' func='ufloat' >
+        {tuple_call} any* >
         |
-        power< object=NAME trailer< '.' 'ufloat' > {tuple_any_call} any* >
-        |
-        power< object=NAME trailer< '.' 'ufloat' >
-        trailer< '(' string=STRING ')' >
-        any* >
-        |
-        power< object=NAME trailer< '.' 'ufloat' >
-        trailer< '(' arglist< string=STRING ',' tag=any > ')' >
-        any* >
-        """.format(tuple_call=tuple_call,
-                   tuple_any_call=tuple_any_call)
+        power< NAME trailer< '.' NAME >* trailer< '.' func='ufloat' >
+        {string_call} any* >
+        """.format(tuple_call=tuple_call, string_call=string_call)
 
     
     def transform(self, node, results):
@@ -90,16 +73,9 @@ class FixUfloat(BaseFix):
         if 'tag' in results:
             new_args.extend([Comma(), results['tag'].clone()])            
 
-        if 'object' in results:  # If dotted access: unc.ufloat()
-            func_name = node.children[1].children[1]
-            args = node.children[2]
-        else:
-            func_name = node.children[0]
-            args = node.children[1]
-            
         # Function name update:
-        func_name.value = new_func_name
+        results['func'].value = new_func_name
         #! func_name.changed()  # Necessary when only .value is changed
         
         # Argument list update:
-        args.replace(ArgList(new_args))
+        results['call'].replace(ArgList(new_args))
-- 
2.43.0


From e07dc8982d9f0a0567658799a41b781c2d14be23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 34/36] fix: correlated_values() and correlated_values_norm()
 failed or gave wrong results with NumPy matrices

---
 uncertainties/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index a57bbe9..5e2a759 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -169,6 +169,9 @@ else:
         # such variables (with the help of numpy.ix_()), and creating 
         # them separately.
         
+        # (The multiplication of NumPy matrices is not element-wise.)
+        covariance_mat = numpy.asarray(covariance_mat)
+
         std_devs = numpy.sqrt(numpy.diag(covariance_mat))
 
         # For numerical stability reasons, we go through the correlation
@@ -219,7 +222,9 @@ else:
         if tags is None:
             tags = (None,) * len(values_with_std_dev)
 
-        (nominal_values, std_devs) = numpy.transpose(values_with_std_dev)
+        # (NumPy matrices are handled like the equivalent arrays.)
+        (nominal_values, std_devs) = numpy.transpose(
+            numpy.asarray(values_with_std_dev))
 
         # We diagonalize the correlation matrix instead of the
         # covariance matrix, because this is generally more stable
@@ -229,7 +234,8 @@ else:
         #
         # The covariance matrix is diagonalized in order to define
         # the independent variables that model the given values:
-        (variances, transform) = numpy.linalg.eigh(correlation_mat)
+        (variances, transform) = numpy.linalg.eigh(
+            numpy.asarray(correlation_mat))
 
         # Numerical errors might make some variances negative: we set
         # them to zero:
-- 
2.43.0


From 7a8391a20c192cd93720ec85ba5b291ef7fa384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 35/36] fix: unumpy.floor(), ceil(), trunc(), isnan() and
 isinf() failed on empty arrays or large numbers

---
 uncertainties/unumpy/core.py | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 1b71541..4d495ac 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -667,6 +667,23 @@ def umatrix(nominal_values, std_devs=None):
 
 ###############################################################################
 
+def with_integer_type(vectorized_func):
+    """
+    Return a version of the given function, which returns an array of
+    integers stored as objects, that returns an array with an integer
+    data type instead, when its integers are not too large for it.
+    """
+
+    @uncert_core.set_doc(vectorized_func.__doc__)
+    def wrapped_func(*args, **kwargs):
+        result = vectorized_func(*args, **kwargs)
+        try:
+            return result.astype(int)
+        except OverflowError:
+            return result
+
+    return wrapped_func
+
 def define_vectorized_funcs():
     """
     Defines vectorized versions of functions from uncertainties.umath_core.
@@ -706,7 +723,7 @@ def define_vectorized_funcs():
             # return an array with a boolean data type (instead of
             # object), which allows the result to be used with NumPy's
             # boolean indexing.
-            {} if function_name in umath_core.locally_cst_funcs
+            {'otypes': [bool]} if function_name in ('isinf', 'isnan')
             # If by any chance a function returns, in a particular
             # case, an integer instead of a number with uncertainty,
             # side-effects in vectorize() would fix the resulting
@@ -716,18 +733,23 @@ def define_vectorized_funcs():
             # type of first element only).
             else {'otypes': [object]})
 
-        setattr(
-            this_module, unumpy_name,
-            #!!!! For umath_core.locally_cst_funcs, would it make sense
-            # to optimize this by using instead the equivalent (? see
-            # above) vectorized NumPy function on the nominal values?
-            numpy.vectorize(func,
-                            doc="""\
+        #!!!! For umath_core.locally_cst_funcs, would it make sense
+        # to optimize this by using instead the equivalent (? see
+        # above) vectorized NumPy function on the nominal values?
+        vectorized_func = numpy.vectorize(func,
+                                          doc="""\
 Vectorized version of umath.%s.
 
 Original documentation:
 %s""" % (function_name, func.__doc__),
-                            **otypes))
+                                          **otypes)
+
+        # The other locally constant functions return integers:
+        if (function_name in umath_core.locally_cst_funcs
+            and otypes['otypes'] == [object]):
+            vectorized_func = with_integer_type(vectorized_func)
+
+        setattr(this_module, unumpy_name, vectorized_func)
 
 
         __all__.append(unumpy_name)
-- 
2.43.0


From ab898ec45fb23f3534bd448970c2b3352d7288fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 36/36] fix: NumPy strings, complex64, etc. were compared with
 numbers with uncertainty like real numbers

---
 uncertainties/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 5e2a759..4a08dea 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -95,6 +95,8 @@ def set_doc(doc_string):
 # may slightly improve the execution speed.
 FLOAT_LIKE_TYPES = (numbers.Number,)
 CONSTANT_TYPES = FLOAT_LIKE_TYPES+(complex,)
+# Types from CONSTANT_TYPES that are never numbers with uncertainty:
+NON_REAL_TYPES = (complex,)
 
 ###############################################################################
 
@@ -128,6 +130,8 @@ else:
     # NumPy numbers do not depend on Variable objects:
     FLOAT_LIKE_TYPES += (numpy.generic,)
     CONSTANT_TYPES += FLOAT_LIKE_TYPES[-1:]
+    NON_REAL_TYPES += (numpy.complexfloating, numpy.flexible,
+                       numpy.datetime64, numpy.timedelta64)
 
     # Entering variables as a block of correlated values.  Only available
     # if NumPy is installed.
@@ -288,8 +292,8 @@ def to_affine_scalar(x):
     if isinstance(x, AffineScalarFunc):
         return x
 
-    # (Complex numbers are never numbers with uncertainty.)
-    if isinstance(x, CONSTANT_TYPES) and not isinstance(x, complex):
+    # (Complex numbers, strings, etc. are never numbers with uncertainty.)
+    if isinstance(x, CONSTANT_TYPES) and not isinstance(x, NON_REAL_TYPES):
         # No variable => no derivative:
         return AffineScalarFunc(x, LinearCombination({}))
 
-- 
2.43.0

