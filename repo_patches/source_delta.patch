From bc84a7d92310d151f00f2c66b2e94bab2e37d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 01/43] fix: initialise Float, Infinity, NegInfinity and NaN
 like every other expression

Their constructors skipped Expr.__post_init__, so abs(1.5*x) and nesting() of anything
holding a float raised (AttributeError / TypeError).
---
 src/simpy/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..37d35be 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -479,6 +479,7 @@ class Float(Num, Expr):
 
     def __init__(self, value):
         self.value = value
+        super().__post_init__()
 
     def latex(self):
         return repr(self)
@@ -656,7 +657,7 @@ class Infinity(Num, Expr):
     value = float("inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "\\infty"
@@ -675,7 +676,7 @@ class NegInfinity(Num, Expr):
     value = float("-inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "-\\infty"
@@ -694,7 +695,7 @@ class NaN(Num, Expr):
     value = float("NaN")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self):
         return NotImplemented
-- 
2.43.0


From cd66da50676805c57f8c233e807b6fe77c436c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 02/43] fix: repr of a logarithm with an integer base

log(x, 2) could be built but not printed (str + Rat), and sorting a sum or a product
that holds one prints it, so x + y*log(x, 2) raised too.
---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 37d35be..2fb493f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1557,7 +1557,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
-- 
2.43.0


From 7c81b17cab647ce9d568c021ff303edc9bc433e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 03/43] fix: keep the base of a logarithm in expand, diff,
 evalf and expand_logs

All four treated log(x, b) as ln(x): expand and expand_logs returned ln, diff left out
1/ln(b), and log(8, 2).evalf() gave 2.079.
---
 src/simpy/expr.py              | 12 +++++++++---
 src/simpy/simplify/simplify.py | 18 +++++++++---------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 2fb493f..3c696c9 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1571,8 +1571,10 @@ class log(Expr):
         return log(inner, base)
 
     def _expand(self) -> Expr:
-        assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        assert self.expandable(), f"Cannot expand {self}"
+        inner = self.inner.expand() if self.inner.expandable() else self.inner
+        base = self.base.expand() if self.base.expandable() else self.base
+        return self.__class__(inner, base)
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
@@ -1611,12 +1613,16 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
+        if self.base != e:
+            return (log(self.inner) / log(self.base)).diff(var)
         return self.inner.diff(var) / self.inner
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..a85b49e 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -32,30 +32,30 @@ def expand_logs(expr: Expr, **kwargs) -> Expr:
 def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
-    inner = expr.inner
+    inner, base = expr.inner, expr.base
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log(inner.base, base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return Sum([log(t, base) for t in inner.terms])
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return Sum([log(t, base) for t in inner.factor().terms])
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log(inner.reciprocal_class(inner.inner), base)
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log(abs(inner.inner.base), base) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return Sum([log(abs(term), base) for term in inner.inner.terms])
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return Sum([log(abs(term), base) for term in inner.inner.factor().terms])
 
-    return log(inner)
+    return log(inner, base)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From cb8c0f77da177f4bfeb3309ace8f3a504e87fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 04/43] fix: log() must not re-initialise a logarithm that
 already exists

log(e**log(x, 2)) returns the exponent; __init__ then overwrote that expression's inner
and base with the call's arguments, leaving a log that contains itself (RecursionError).
---
 src/simpy/expr.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 3c696c9..4460cdb 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1591,7 +1591,7 @@ class log(Expr):
     @cast
     def __new__(cls, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
         if skip_checks:
-            super().__new__(cls)
+            return super().__new__(cls)
 
         if inner == 1:
             return Rat(0)
@@ -1605,11 +1605,16 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
+        # Otherwise they are already set in __new__, which may also return a log that existed before.
+        if skip_checks:
+            self.inner = inner
+            self.base = base
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-- 
2.43.0


From 43af4c4962da0f80ade7ac19dffb4a555acfc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 05/43] fix: Abs() keeps the argument its constructor
 normalised

__init__ put the caller's argument back, so abs(-x) stayed |-x| and was not equal to abs(x).
---
 src/simpy/expr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 4460cdb..43a0cd9 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2046,7 +2046,13 @@ class Abs(SingleFunc):
         if _is_strictly_positive(inner):
             return inner
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        return instance
+
+    def __init__(self, inner: Expr):
+        # inner is already set in __new__, which may have rewritten it or returned an Abs that existed before.
+        self.__post_init__()
 
     def diff(self, var) -> Expr:
         warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-- 
2.43.0


From 41f239922e074fa517786abe8d98291432191ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 06/43] fix: derivative of an absolute value

Abs.diff returned the derivative of its argument, so d|x|/dx was 1 and d ln|x|/dx was
1/|x|, both wrong for x < 0.
---
 src/simpy/expr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 43a0cd9..b38e5ee 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -15,7 +15,6 @@ so I don't really mind the lack of float support, but I can see why you'd be ann
 import inspect
 import itertools
 import math
-import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, fields
 from fractions import Fraction
@@ -1620,7 +1619,9 @@ class log(Expr):
     def diff(self, var) -> Expr:
         if self.base != e:
             return (log(self.inner) / log(self.base)).diff(var)
-        return self.inner.diff(var) / self.inner
+        # d ln|u| = du / u
+        inner = self.inner.inner if isinstance(self.inner, Abs) else self.inner
+        return inner.diff(var) / inner
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
@@ -2055,8 +2056,8 @@ class Abs(SingleFunc):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        # d|u| = sign(u) du
+        return self.inner / self * self.inner.diff(var)
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From 3edd8773ffba7d6313d7101099db9a4a8659833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 07/43] fix: asin(0), acos(0) and atan(0)

Their special values were built by unpacking the keys of the forward table, so each
raised ValueError, and so did any definite integral with such a value at a bound.
---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b38e5ee..1186c4f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1989,7 +1989,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -2002,7 +2002,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2015,7 +2015,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From 121ed5c2d0011624265d8ac103a26c3a2512258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 08/43] fix: sectan() in simplify compared an int with a list
 and asserted on a bare sec^2

simplify(sec(x)**2 + 2*tan(x)**2) raised AssertionError and
simplify(2*sec(x)**2 + 3*tan(x)**2) raised TypeError.
---
 src/simpy/simplify/simplify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index a85b49e..89bc0d8 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -342,8 +342,9 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
+        new = new.expand() if new.expandable() else new
+        if not isinstance(new, Sum):
+            return
         tans.extend(new.terms)
 
     new_sum = Sum(tans + others)
@@ -351,7 +352,7 @@ def sectan(sum: Expr) -> Optional[Expr]:
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From 63ffd86632703cd018b32802c69646994b771af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 09/43] fix: exact roots of rational numbers

Roots were taken in floating point: sqrt(10**20 + 1) came out as exactly 10**10,
8**(2/3) was not recognised as 4, and large numbers raised OverflowError.
---
 src/simpy/expr.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 1186c4f..ec20356 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -729,6 +729,28 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _integer_root(n: int, k: int) -> int:
+    """The largest r with r**k <= n, for n >= 1."""
+    if k == 2:
+        return math.isqrt(n)
+    r = 1 << -(-n.bit_length() // k)
+    while True:
+        s = ((k - 1) * r + n // r ** (k - 1)) // k
+        if s >= r:
+            return r
+        r = s
+
+
+def _integer_power(n: int, x: Fraction) -> Optional[int]:
+    """n**x if that is an integer and None otherwise, for x >= 0."""
+    if x.denominator == 1:
+        return n**x.numerator
+    if n < 0:
+        return None
+    root = _integer_root(n, x.denominator)
+    return root**x.numerator if root**x.denominator == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -743,14 +765,13 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
-        if isint(num) and isint(den):
+        num = _integer_power(b.value.numerator, abs(x.value))
+        den = _integer_power(b.value.denominator, abs(x.value))
+        if num is not None and den is not None:
             if x > 0:
-                return Rat(int(num), int(den))
+                return Rat(num, den)
             else:
-                return Rat(int(den), int(num))
+                return Rat(den, num)
 
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
@@ -765,9 +786,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             return -1 * Power(-b, x)
 
         ans = None
-        if isint(num) and num != 1:
+        if num is not None and num != 1:
             ans = Prod([Rat(num), Power(b.denominator, -x, skip_checks=True)], skip_checks=True)
-        elif isint(den) and den != 1:
+        elif den is not None and den != 1:
             ans = Prod([Rat(1, den), Power(b.numerator, x, skip_checks=True)], skip_checks=True)
         if ans:
             if x > 0:
-- 
2.43.0


From c6788ff1d7aa3224355e69ec35eabd68932538cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 10/43] fix: Rat ** Rat no longer raises for 0**-1 or for roots
 of large numbers

Power(0, -1) and 1/Rat(0) are inf, but Rat(0)**-1 raised ZeroDivisionError, and
sqrt(10**400) raised OverflowError before reaching the exact code.
---
 src/simpy/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index ec20356..e7230bc 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -574,10 +574,8 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
-            value = self.value**other.value
-            if isinstance(value, Fraction):
-                return Rat(value)
+        if isinstance(other, Rat) and other.is_int and (self.value != 0 or other.value >= 0):
+            return Rat(self.value**other.value)
         return super().__pow__(other)
 
     @cast
-- 
2.43.0


From 19b12a1fb1a585c7b68abb344e91da0679af3a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 11/43] fix: evalf() of an expression that contains a symbol

Symbol._evalf called the base method without its argument, so (x + y).evalf({'x': 1, 'y': 2})
raised TypeError.
---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e7230bc..d4c9cb8 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -813,7 +813,8 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        value = self.subs(subs)
+        return value if isinstance(value, Symbol) else value.evalf()
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From 3222077df063f50db6a85ecda4958703d52a1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 12/43] fix: sums and products stay flat when coefficients or
 exponents add up to one

Sum([3*(x + 2), -2*(x + 2), y, x]) held a Sum inside a Sum with x not collected, and
2*(x + y) - 3*(x + y) was the Prod(-1, Sum) that Prod.__new__ does not allow to exist.
---
 src/simpy/expr.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d4c9cb8..f1396c5 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -873,6 +873,9 @@ def _combine_like_terms_sum(terms: List[Expr]) -> List[Expr]:
             continue
         elif coeff == 1:
             non_constant_terms.append(Prod(non_const_factors1, skip_checks=True))
+        elif coeff == -1 and isinstance(non_const_factors1[0], Sum) and len(non_const_factors1) == 1:
+            # -1 * (x + y) is not allowed to exist as a Prod, see Prod.__new__
+            non_constant_terms.append(-non_const_factors1[0])
         else:
             non_constant_terms.append(Prod([coeff] + non_const_factors1, skip_checks=True))
 
@@ -908,6 +911,9 @@ class Sum(Associative, Expr):
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
         final_terms = _combine_like_terms_sum(terms)
+        while any(isinstance(t, Sum) for t in final_terms):
+            # the coefficients of a sum added up to 1 or -1, ex: 3*(x + y) - 2*(x + y)
+            final_terms = _combine_like_terms_sum(cls._flatten_terms(final_terms))
 
         if len(final_terms) == 0:
             return Rat(0)
@@ -1177,6 +1183,9 @@ class Prod(Associative, Expr):
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
         new_terms = _combine_like_terms(terms)
+        while any(isinstance(t, Prod) for t in new_terms):
+            # the exponents of a product added up to 1, ex: sqrt(-x) * sqrt(-x)
+            new_terms = _combine_like_terms(cls._flatten_terms(new_terms))
 
         if len(new_terms) == 0:
             return Rat(1)
-- 
2.43.0


From 24af5a53e8fd435406cf78159e3afb3821ece542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 13/43] fix: factor() of a sum with a float coefficient

It read .denominator of a float and raised AttributeError.
---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f1396c5..8fd36dd 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1024,9 +1024,9 @@ class Sum(Associative, Expr):
         # Factor coeffs
         common_coeff = abs(coeffs[0])
         for c in coeffs[1:]:
-            x: Rat = c / common_coeff
-            y: Rat = common_coeff / c
-            if x.value.denominator == 1 or y.value.denominator == 1:
+            x = c / common_coeff
+            y = common_coeff / c
+            if isinstance(x, Rat) and isinstance(y, Rat) and (x.is_int or y.is_int):
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
                 common_coeff = None
-- 
2.43.0


From da24c47e78640f299de32b9c5c84f7708ca1e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 14/43] fix: derivative of the constants asin(1), asin(-1),
 acos(1) and acos(-1)

The chain rule gave inf * 0, so (x*asin(1)).diff(x) was nan.
---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8fd36dd..1e53327 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2014,6 +2014,8 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
+        if not self.inner.contains(var):
+            return Rat(0)  # the formula below is inf * 0 for a constant 1 or -1
         return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
@@ -2027,6 +2029,8 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
+        if not self.inner.contains(var):
+            return Rat(0)  # the formula below is inf * 0 for a constant 1 or -1
         return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
-- 
2.43.0


From d8dcfc043e1882592d3bb7a5113acf1371cdd97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 15/43] fix: a negative float to a fractional power stays
 unevaluated

sqrt(-26.25*y) evaluated (-26.25)**0.5 to a complex number and failed an assertion.
---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 1e53327..91d6093 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -752,7 +752,8 @@ def _integer_power(n: int, x: Fraction) -> Optional[int]:
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
-        return Const(b.value**x.value)
+        value = b.value**x.value
+        return None if isinstance(value, complex) else Const(value)
 
     if b == 0:
         if x > 0:
-- 
2.43.0


From de5a6fc72a681f97e404c6c10e24573220dc4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 16/43] fix: trigonometric functions simplify what is left
 after a whole period is dropped

cos(4*pi - x) became cos(-x), which is not equal to cos(x) as built directly, and
cos(-x - 4*pi) kept its period.
---
 src/simpy/expr.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 91d6093..446aae6 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1797,9 +1797,8 @@ class TrigFunction(SingleFunc, ABC):
                     if t.has(Pi):
                         coeff = t / pi
                         if isinstance(coeff, Rat) and coeff % cls._period == 0:
-                            instance = super().__new__(cls)
-                            instance.inner = inner - t
-                            return instance
+                            # what is left may be simplified further, ex: cos(2*pi - x) -> cos(-x) -> cos(x)
+                            return cls(inner - t)
 
         # 2. Check if inner is trigfunction
         # things like sin(cos(x)) cannot be more simplified.
@@ -1936,14 +1935,9 @@ class cos(TrigFunctionNotInverse):
 
     @cast
     def __new__(cls, inner: Expr) -> "Expr":
-        # bruh this is so complicated because doing cos(new, -inner) just sets inner as the original inner because of passing
-        # the same args down to init.
-        new = super().__new__(cls, inner)
-        if not isinstance(new, cos):
-            return new
         if inner.is_subtraction:
-            new.inner = -inner
-        return new
+            return cos(-inner)
+        return super().__new__(cls, inner)
 
 
 class tan(TrigFunctionNotInverse):
-- 
2.43.0


From b94c9edf79e048d6e5a0e45c06b5a217709aec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 17/43] fix: a product merges powers again when merging has
 produced a new base

---
 src/simpy/expr.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 446aae6..4c7c53e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1115,6 +1115,7 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
     consts = []
     non_constant_terms = []
     decon = {}
+    new_base = False
 
     def _add_term(term):
         if isinstance(term, AccumulaTuple):
@@ -1153,7 +1154,10 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
             _add_term(base)
             continue
 
-        _add_term(Power(base, expo))
+        power = Power(base, expo)
+        if not isinstance(power, AccumulaTuple) and deconstruct_power(power)[0] != base:
+            new_base = True
+        _add_term(power)
 
     if consts:
         coeff = accumulate(*consts, type_="prod")
@@ -1161,6 +1165,9 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
             return [coeff]
         if coeff != 1:
             non_constant_terms.append(coeff)
+    if new_base:
+        # the power may have the same base as another term, ex: (x + y) * (-x - y) * (-x - y)
+        return _combine_like_terms(non_constant_terms)
     return non_constant_terms
 
 
-- 
2.43.0


From 043a9b7fff7af4853824915cfe4fdd27c5767c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 18/43] fix: expand() of a power whose base changes sign while
 it is expanded

---
 src/simpy/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 4c7c53e..48e8eae 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1506,7 +1506,10 @@ class Power(Expr):
         b = self.base.expand() if self.base.expandable() else self.base
         x = self.exponent.expand() if self.exponent.expandable() else self.exponent
         new = Power(b, x)
-        if not isinstance(new, Power) or not new._power_expandable():
+        if not isinstance(new, Power):
+            # ex: (2*(-y - 2) + 2)^3 -> -(2*y + 2)^3
+            return new.expand() if new.expandable() else new
+        if not new._power_expandable():
             return new
 
         expanded = []
-- 
2.43.0


From 60b3286a0a44f22b2338964a1dbd1b8a3d628a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 19/43] fix: product-to-sum dropped the plain sine and cosine
 factors next to a power

---
 src/simpy/simplify/product_to_sum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..6ebd0a9 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,8 +73,10 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
-            return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
+            new = Prod(new_terms)
+            new = new.expand() if new.expandable() else new
+            return _product_to_sum(new.terms if isinstance(new, Sum) else [new], multiplier=const)
 
         return _perform_on_terms(
             new_expr.terms[0], new_expr.terms[1], multiplier=Prod(new_expr.terms[2:], skip_checks=True) * const
-- 
2.43.0


From f0741c2cc7c5cdd194c43020edaa00e2ceb810cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 20/43] fix: the logarithm of a float that is not positive
 stays unevaluated

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 48e8eae..76d1c67 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1638,10 +1638,10 @@ class log(Expr):
             return Rat(1)
         if isinstance(inner, Power) and inner.base == base:
             return inner.exponent
-        if isinstance(inner, Float):
+        if isinstance(inner, Float) and inner > 0:
             if base == e:
                 return Float(math.log(inner.value))
-            if isinstance(base, Float):
+            if isinstance(base, Float) and base > 0:
                 return Float(math.log(inner.value) / math.log(base.value))
 
         instance = super().__new__(cls)
-- 
2.43.0


From 2dd3e404d2aa24c0423cdf50622db120a88bb76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 21/43] fix: evalf() of a secant, cosecant or cotangent

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 76d1c67..f96a210 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1854,7 +1854,7 @@ class TrigFunction(SingleFunc, ABC):
     def _evalf(self, subs):
         inner = self.inner._evalf(subs)
         if isinstance(inner, Num):
-            return Float(self._func(inner.value))
+            return Float(self.__class__._func(inner.value))
         return self.__class__(inner)
 
     def latex(self) -> str:
-- 
2.43.0


From b3e8a0e4b470060ac4899e4f33f5fb069c3d9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:36 +0000
Subject: [PATCH 22/43] fix: partial fractions crashed on a factor that is not
 linear

---
 src/simpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..c28d250 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -914,6 +914,9 @@ class PartialFractions(Transform):
 
         d1_list = to_const_polynomial(d1, node.var)
         d2_list = to_const_polynomial(d2, node.var)
+        if not d1_list.size == d2_list.size == 2:
+            # only linear factors for now
+            return False
 
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
-- 
2.43.0


From c66992d60f1f685797da2022f1192251614eea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 23/43] fix: completing the square divided by zero on a perfect
 square

---
 src/simpy/transforms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index c28d250..6fe7c52 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -993,6 +993,9 @@ class CompleteTheSquare(Transform):
 
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
+            if poly.size == 3 and poly[1] ** 2 == 4 * poly[0] * poly[2] and expr.exponent != -1:
+                # the root of a perfect square is an absolute value
+                return False
             return poly.size == 3 and poly[1] != 0
             # poly[1] = 0 implies that there's no bx term
             # which means that there's no square to complete.
@@ -1015,6 +1018,9 @@ class CompleteTheSquare(Transform):
             normalized = poly / norm_factor
             const = normalized[1] / 2
             diff = normalized[0] - const**2
+            if diff == 0:
+                # it is a perfect square
+                return (node.var + const) ** 2 * norm_factor
             new_expr = (((node.var + const) / sqrt(diff)) ** 2 + 1) * diff * norm_factor
 
             return new_expr
-- 
2.43.0


From 80384e0aa1cb89cdc02115ded16acad879f7d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 24/43] fix: integration by parts twice that undoes itself
 divided by zero, and crashed when two constants were pulled out

---
 src/simpy/transforms.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 6fe7c52..c51d138 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -738,6 +738,13 @@ class ByParts(Transform):
         old_byparts_integrands = [node.expr for node in byparts_parents]
         if integrand2 in old_byparts_integrands:
             return False
+
+        # same if the parent's integrand comes back with a factor that undoes the constants pulled out since then.
+        parent_byparts = ByParts._get_last_byparts_parent(node)
+        if parent_byparts:
+            first_factor = ByParts._get_first_factor(parent_byparts, node)
+            if first_factor is not None and first_factor * (integrand2 / parent_byparts.expr) == 1:
+                return False
         return True
 
     def __init__(self):
@@ -780,12 +787,15 @@ class ByParts(Transform):
         return _check(a, b) or _check(b, a)
 
     @staticmethod
-    def _get_first_factor(parent_byparts: Node, node: Node) -> Expr:
-        if parent_byparts.children[1] == node:
-            return Rat(1)
-        elif isinstance(node.transform, PullConstant) and parent_byparts.children[1].child == node:
-            return node.transform._constant
-        raise ValueError
+    def _get_first_factor(parent_byparts: Node, node: Node) -> Optional[Expr]:
+        """The constant that was pulled out between the two, None if the integrand was also split up."""
+        factor = Rat(1)
+        while node.parent is not parent_byparts:
+            if not isinstance(node.transform, PullConstant):
+                return None
+            factor *= node.transform._constant
+            node = node.parent
+        return factor
 
     def forward(self, node: Node) -> None:
         # This is tricky bc you have 2 layers of children here.
@@ -821,8 +831,8 @@ class ByParts(Transform):
             parent_byparts = self._get_last_byparts_parent(node)
             if parent_byparts:
                 second_factor = integrand2 / parent_byparts.expr
-                if not second_factor.contains(node.var):
-                    first_factor = self._get_first_factor(parent_byparts, node)
+                first_factor = self._get_first_factor(parent_byparts, node)
+                if first_factor is not None and not second_factor.contains(node.var):
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
                     other_uv.solution /= 1 - factor  # mutating is sus
-- 
2.43.0


From a00b2286a61521a7d4c21d92d4d6aed8f762d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 25/43] fix: a term that leads back to an integral further up
 was dropped from the answer

---
 src/simpy/transforms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index c51d138..d4fe09b 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -340,6 +340,10 @@ class Additivity(SafeTransform):
     def forward(self, node: Node):
         node.type = "AND"
         node.add_children([Node(e, node.var, self, node) for e in node.expr.terms])
+        if len(node.children) != len(node.expr.terms):
+            # One of the terms is what we're integrating further up. The sum of the others isn't the answer.
+            node.children.clear()
+            node.type = "FAILURE"
 
     def check(self, node: Node) -> bool:
         if super().check(node) is False:
@@ -868,7 +872,9 @@ class ByParts(Transform):
                     Node(integrand2, node.var, Additivity(), funky_node),
                 ]
             )
-            node.add_child(funky_node)
+            if len(funky_node.children) == 2:
+                # otherwise the new integral is what we're integrating further up, uv alone isn't the answer.
+                node.add_child(funky_node)
 
     def backward(self, node: Node) -> None:
         super().backward(node)
-- 
2.43.0


From d9e1b5d7cee2737b410eda5e45042e47a2b5d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 26/43] fix: repr left out the brackets of a function whose
 argument starts and ends with one

---
 src/simpy/expr.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index f96a210..470f8f4 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1580,10 +1580,7 @@ class SingleFunc(Expr):
 
 
 def _repr(inner: Expr, label: str) -> str:
-    inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
-        return f"{label}{inner_repr}"
-    return f"{label}({inner_repr})"
+    return f"{label}({inner.__repr__()})"
 
 
 @dataclass
-- 
2.43.0


From 61859e502a333b355fa5456d57cfbcd64e3baf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 27/43] fix: repr left out the brackets of an exponent written
 as a fraction

---
 src/simpy/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 470f8f4..102d1dd 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1391,6 +1391,9 @@ class Power(Expr):
         def _term_repr(term):
             if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
                 return "(" + repr(term) + ")"
+            if isinstance(term, Power) and isinstance(term.exponent, (Rat, Float)) and term.exponent < 0:
+                # it's written as a fraction
+                return "(" + repr(term) + ")"
             return repr(term)
 
         # represent negative powers as reciprocals
-- 
2.43.0


From 20b3d82aa5aab23d4749f821eddb72efb1fbf0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:41 +0000
Subject: [PATCH 28/43] fix: partial fractions crashed on factors that are not
 polynomials

---
 src/simpy/transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index d4fe09b..d07d015 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -928,8 +928,12 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            # ex: (1 - sqrt(x)) * (1 + sqrt(x))
+            return False
         if not d1_list.size == d2_list.size == 2:
             # only linear factors for now
             return False
-- 
2.43.0


From 9e9fbe3969f3a28ff9f8bddebc4cdf2ff5542980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 29/43] fix: a linear substitution was left half done when the
 plain multiple came before the power

---
 src/simpy/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index d07d015..76aa3d8 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -637,8 +637,8 @@ class LinearUSub(USub):
             result = _is_a_linear_sum_or_prod(e)
             if result is not None:
                 u, u_inverse = result
-                if self._u is not None:
-                    return u == self._u
+                if self._u is not None and u != self._u:
+                    return False
                 self._u = u
 
                 # If u_inverse exists, set it.
-- 
2.43.0


From 90186c4e328a3d7b512cc3befb13e5c8f9408611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 30/43] fix: |cos(u)| after the substitution u = asin(x) is
 cos(u)

The integral of sqrt(1 - x^2) was only found because the derivative of an absolute
value was taken to be the derivative of its argument.
---
 src/simpy/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 76aa3d8..aaa9355 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -8,6 +8,7 @@ from typing import Callable, Dict, List, Literal, Optional, Tuple, Type, Union
 import numpy as np
 
 from .expr import (
+    Abs,
     Expr,
     Num,
     Power,
@@ -514,6 +515,10 @@ class InverseTrigUSub(USub):
         # that on right now
         second_transform = Simplify()
         if second_transform.check(new_node):
+            # u is between -pi/2 and pi/2, where cos(u) and sec(u) are positive
+            positive = [cos(intermediate), sec(intermediate)]
+            rid_abs = replace_factory(lambda e: isinstance(e, Abs) and e.inner in positive, lambda e: e.inner)
+            second_transform._ans = rid_abs(second_transform._ans)
             second_transform.forward(new_node)
 
     def check(self, node: Node) -> bool:
-- 
2.43.0


From 409addb7c135db812f4d79f774d2aa117d9ee650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 31/43] fix: derivative of a power with the variable in both
 base and exponent

integrate() raised NotImplementedError for products with such a power, e.g. sin(x)*x^x,
instead of returning None.
---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 102d1dd..7a7a000 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1541,8 +1541,8 @@ class Power(Expr):
         if not self.base.contains(var):
             return log(self.base) * self * self.exponent.diff(var)
 
-        # if both base and exponent contain var
-        raise NotImplementedError("Power differentiation not implemented for both base and exponent containing var")
+        # if both base and exponent contain var: u^v = e^(v ln u)
+        return self * (self.exponent.diff(var) * log(self.base) + self.exponent * self.base.diff(var) / self.base)
         # new_power = Power(e, self.exponent * log(self.base))
         # return new_power.diff(var)
 
-- 
2.43.0


From 91f6b8662819b59815cc11c5af3afd267236827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 32/43] fix: simpy.latex was replaced by the module of that
 name after its first use

---
 src/simpy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simpy/__init__.py b/src/simpy/__init__.py
index d6dcff2..f263c77 100644
--- a/src/simpy/__init__.py
+++ b/src/simpy/__init__.py
@@ -1,2 +1,3 @@
+from . import latex  # before the function of that name: loading it later would replace the function by the module
 from .expr import Rat, acos, asin, atan, cos, cot, csc, diff, e, latex, log, pi, sec, sin, sqrt, symbols, tan
 from .integration import integrate
-- 
2.43.0


From 37a056e3717b274d52f17ccccd53fe20132e69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 33/43] fix: eq(up_to_sum=True) could account for two query
 terms with one term of the sum

---
 src/simpy/regex.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..41e44cf 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -138,29 +138,24 @@ _qmatches = Dict[str, Dict[str, Matches]]
 
 
 def consolidate(query_matches: _qmatches, expr: Sum) -> EqResult:
-    final = defaultdict(list)
-    accounted_expr_terms = []
+    options = list(query_matches.values())
+
+    def _assign(i: int, final: Matches, accounted: List[str]) -> Optional[Tuple[Matches, List[str]]]:
+        # Each term of expr accounts for at most one query term, and all matches have to agree.
+        if i == len(options):
+            return final, accounted
+        for expr_term_repr, matches in options[i].items():
+            if expr_term_repr not in accounted and _matches_eq(matches, final):
+                found = _assign(i + 1, {**final, **matches}, accounted + [expr_term_repr])
+                if found is not None:
+                    return found
+        return None
 
     # We need to make sure every query term has a match.
-    for query_term_repr, query_term_values in query_matches.items():
-        has_match = False
-        for expr_term_repr, matches in query_term_values.items():
-            if all(
-                any(_matches_eq(matches2, matches) for matches2 in query_term_values2.values())
-                for query_term_values2 in query_matches.values()
-            ):
-                join_dicts(final, matches)
-                accounted_expr_terms.append(expr_term_repr)
-                has_match = True
-                break  # this might cause trouble down the line that we're just matching the first one :/
-                # what if there are multiple expr terms that match the query? i dunno actually wtv this is fine wtv.
-
-        if not has_match:
-            return {"success": False}
-
-    assert all(all_same(v) for v in final.values())
-    final = {k: v[0] for k, v in final.items()}
-    assert all(any(_matches_eq(x, final) for x in y.values()) for y in query_matches.values())
+    found = _assign(0, {}, [])
+    if found is None:
+        return {"success": False}
+    final, accounted_expr_terms = found
 
     rest = Sum([t for t in expr.terms if repr(t) not in accounted_expr_terms])
     return {"matches": final, "rest": rest, "success": True}
@@ -213,7 +208,7 @@ class Eq:
                     for expr_term in expr.terms:
                         output = Eq(expr_term, query_term, decompose_singles=False)()
                         is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y) for y in query_matches.values()):
+                        if is_eq:
                             query_matches[repr(query_term)][repr(expr_term)] = anyfinds
 
                     if len(query_matches[repr(query_term)]) == 0:
-- 
2.43.0


From 65c3dd7fbbb80f71fb947f1d51306e3b82957f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:34 +0000
Subject: [PATCH 34/43] fix: a power with a negative decimal base was printed
 without brackets

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 7a7a000..e87e0b8 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1103,7 +1103,7 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: isinstance(x, Rat) and x.value.denominator != 1 or isinstance(x, (Rat, Float)) and x < 0
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
-- 
2.43.0


From d5fca2bd33f88d0b055f97bddc688cb63cf2a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 35/43] fix: diff() without a variable returned a ValueError
 instead of raising it

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e87e0b8..48c3322 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2130,7 +2130,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From 8954a986945c7de12b46f84455cfe2efbca207d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:37 +0000
Subject: [PATCH 36/43] fix: wrapping a single sum or product in Sum/Prod with
 skip_checks made it contain itself

---
 src/simpy/expr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 48c3322..82eddb7 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -930,9 +930,10 @@ class Sum(Associative, Expr):
     def __init__(self, terms: List[Expr], *, skip_checks: Union[bool, Literal["sort"]] = False):
         # Overrides the shit that does self.terms = terms because i've already set terms
         # in __new__.
-        if skip_checks is True:
+        # (a single term is returned as it is by __new__, and may be another Sum)
+        if skip_checks is True and len(terms) > 1:
             self.terms = terms
-        if skip_checks == "sort":
+        if skip_checks == "sort" and len(terms) > 1:
             self.terms = self._sort_terms(terms)
         super().__post_init__()
 
@@ -1213,7 +1214,8 @@ class Prod(Associative, Expr):
         return instance
 
     def __init__(self, terms: List[Expr], *, skip_checks: bool = False):
-        if skip_checks:
+        if skip_checks and len(terms) > 1:
+            # (a single term is returned as it is by __new__, and may be another Prod)
             self.terms = terms
         # terms are already set in __new__
         super().__post_init__()
-- 
2.43.0


From ccdc1019730c0f391d5d72563b09e08e786bee96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 37/43] fix: debug_repr(pedantic="always") only applied to the
 outermost level

---
 src/simpy/debug/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/debug/utils.py b/src/simpy/debug/utils.py
index ed26620..f52fc81 100644
--- a/src/simpy/debug/utils.py
+++ b/src/simpy/debug/utils.py
@@ -9,13 +9,13 @@ def debug_repr(expr: Expr, *, pedantic: Literal["always", "moderate"] = "moderat
     pedantic = "always" will show the non-children classes of numbers and symbols
     """
     if isinstance(expr, Power):
-        return f"Power({debug_repr(expr.base)}, {debug_repr(expr.exponent)})"
+        return f"Power({debug_repr(expr.base, pedantic=pedantic)}, {debug_repr(expr.exponent, pedantic=pedantic)})"
         # return f'({debug_repr(expr.base)})^{debug_repr(expr.exponent)}'
     if isinstance(expr, Prod):
-        return "Prod(" + ", ".join([debug_repr(t) for t in expr.terms]) + ")"
+        return "Prod(" + ", ".join([debug_repr(t, pedantic=pedantic) for t in expr.terms]) + ")"
         # return " * ".join([debug_repr(t) for t in expr.terms])
     if isinstance(expr, Sum):
-        return "Sum(" + ", ".join([debug_repr(t) for t in expr.terms]) + ")"
+        return "Sum(" + ", ".join([debug_repr(t, pedantic=pedantic) for t in expr.terms]) + ")"
         # return " + ".join([debug_repr(t) for t in expr.terms])
 
     if pedantic == "always":
-- 
2.43.0


From ec847b8931fa30fcde0269d7580ee6cb84f4f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 38/43] fix: print_tree(show_solution=True) failed on a solved
 branch of an unsolved tree

---
 src/simpy/debug/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/debug/tree.py b/src/simpy/debug/tree.py
index 85e7887..cee9ca7 100644
--- a/src/simpy/debug/tree.py
+++ b/src/simpy/debug/tree.py
@@ -57,7 +57,7 @@ def print_tree(root: Node, show_stale=True, show_failures=True, show_solution=Fa
         return string + spaces
 
     repr_expr = _wrap(repr_expr, 50)
-    solution = _wrap(repr(_exprify(root.solution)), 50) if (show_solution and root.is_solved) else ""
+    solution = _wrap(repr(_exprify(root.solution)), 50) if (show_solution and root.is_solved and root.solution is not None) else ""
     distance = _wrap(f"[{root.distance_from_root}]", 4)
 
     func(f"{distance} {n} {repr_expr}  {solution}  ({root.transform.__class__.__name__}){x}{varchange}{ending}")
-- 
2.43.0


From e4c106ad10441e6cce6ef9dc6b84b1b4fe2fe17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:57 +0000
Subject: [PATCH 39/43] fix: None, lists, tuples, dicts and classes were
 accepted as operands (x + None was x)

---
 src/simpy/expr.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 82eddb7..b2e939d 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -92,6 +92,14 @@ def _cast(x):
     raise NotImplementedError(f"Cannot cast {x} to Expr")
 
 
+def _operand(x) -> "Expr":
+    """Cast x to an Expr and make sure that it is one: _cast lets None, lists, classes etc. through."""
+    x = _cast(x)
+    if not isinstance(x, Expr):
+        raise TypeError(f"Expected an expression, got {x!r}")
+    return x
+
+
 def cast(func):
     """Decorator to cast all arguments to Expr."""
 
@@ -811,7 +819,7 @@ class Symbol(Expr):
 
     @cast
     def subs(self, subs: Dict[str, "Rat"]):
-        return subs.get(self.name, self)
+        return _operand(subs.get(self.name, self))
 
     def _evalf(self, subs):
         value = self.subs(subs)
@@ -909,7 +917,7 @@ class Sum(Associative, Expr):
                 return terms[0]
             return super().__new__(cls)
 
-        terms = _cast(terms)
+        terms = [_operand(t) for t in terms]
         terms = cls._flatten_terms(terms)
         final_terms = _combine_like_terms_sum(terms)
         while any(isinstance(t, Sum) for t in final_terms):
@@ -1189,7 +1197,7 @@ class Prod(Associative, Expr):
 
         # We need to flatten BEFORE we accumulate like terms
         # ex: Prod(x, Prod(Power(x, -1), y))
-        terms = _cast(terms)
+        terms = [_operand(t) for t in terms]
         terms = cls._flatten_terms(terms)
         new_terms = _combine_like_terms(terms)
         while any(isinstance(t, Prod) for t in new_terms):
@@ -1431,8 +1439,8 @@ class Power(Expr):
         if skip_checks:
             return super().__new__(cls)
 
-        b = _cast(base)
-        x = _cast(exponent)
+        b = _operand(base)
+        x = _operand(exponent)
 
         default_return = super().__new__(cls)
         default_return.base = b
@@ -1634,6 +1642,8 @@ class log(Expr):
         if skip_checks:
             return super().__new__(cls)
 
+        inner = _operand(inner)
+        base = _operand(base)
         if inner == 1:
             return Rat(0)
         if inner == base:
@@ -1792,6 +1802,8 @@ class TrigFunction(SingleFunc, ABC):
         if skip_checks:
             return super().__new__(cls)
 
+        inner = _operand(inner)
+
         # 1. Check if inner is a special value
         if inner == 0:
             return cls.special_values["0"]
-- 
2.43.0


From 8ccecc669f93205314dee0a94ff2011643d59acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:09 +0000
Subject: [PATCH 40/43] fix: simplify() counted c*sin^2 + c*cos^2 twice when c
 has a square of a sine or cosine of its own

---
 src/simpy/simplify/simplify.py | 41 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 89bc0d8..b74ef9e 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -80,34 +80,33 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
         return
 
     ##------------ Simplify sin^2(...) + cos^2(...) ------------##
-    def is_thing_squared(
+    def things_squared(
         term: Expr, cls: Union[Type[TrigFunction], Iterable[Type[TrigFunction]]]
-    ) -> Optional[Tuple[Expr, Expr]]:  # returns inner, factor
+    ) -> List[Tuple[Expr, Expr]]:  # returns inner, factor of every square in term
         def is_(f):
             return isinstance(f, Power) and f.exponent == 2 and isinstance(f.base, cls)
 
         if is_(term):
-            return term.base.inner, Rat(1)
+            return [(term.base.inner, Rat(1))]
 
         if not isinstance(term, Prod):
-            return None
-        for f in term.terms:
-            if is_(f):
-                return f.base.inner, term / f
-        return None
-
-    def sin_cos_condition(expr: Sum):
-        # make sure that a*cos^2(...) and a*sin^2(...) are both terms of this sum
-        # with an optional factor that may or may not be there of a
-        s = [is_thing_squared(term, sin) for term in expr.terms]
-        c = [is_thing_squared(term, cos) for term in expr.terms]
-        return [el for el in s if el is not None and el in c]
-
-    both_inners = sin_cos_condition(sum)
-    if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
-        new_terms += [el[1] for el in both_inners]
-        return Sum(new_terms)
+            return []
+        return [(f.base.inner, term / f) for f in term.terms if is_(f)]
+
+    # make sure that a*cos^2(...) and a*sin^2(...) are both terms of this sum
+    # with an optional factor that may or may not be there of a
+    s = [things_squared(term, sin) for term in sum.terms]
+    c = [things_squared(term, cos) for term in sum.terms]
+    merged = set()  # a term goes into one pair only, even if it has several squares
+    new_terms = []
+    for i in range(len(s)):
+        for j in range(len(c)):
+            both = [el for el in s[i] if el in c[j]]
+            if both and i not in merged and j not in merged:
+                merged |= {i, j}
+                new_terms.append(both[0][1])
+    if merged:
+        return Sum([t for k, t in enumerate(sum.terms) if k not in merged] + new_terms)
 
     ##------------ Simplify 1 +/- cls(...)^2 ------------##
     # - for this case: what if there is a constant (or variable) common factor?
-- 
2.43.0


From 466fb2a6e334b1718df0d36b03b0a690e14411c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:25 +0000
Subject: [PATCH 41/43] fix: GenericUSub left the old variable in the new
 integrand when du does not simplify (sec(x)*ln(tan(x) + sec(x)))

---
 src/simpy/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index aaa9355..a1cb6e4 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -965,6 +965,7 @@ class GenericUSub(USub):
     """Generic u-substitution"""
 
     _u: Expr = None
+    _rest: Expr = None
 
     def check(self, node: Node) -> bool:
         if super().check(node) is False:
@@ -976,20 +977,21 @@ class GenericUSub(USub):
             integral = check_integral_table(term, node.var)
             if integral is None:
                 continue
-            integral = remove_const_factor(integral)
+            integral, const = remove_const_factor(integral, include_factor=True)
             # assume term appears only once in integrand
             # because node.expr is simplified
             rest = Prod(node.expr.terms[:i] + node.expr.terms[i + 1 :])
             if count(rest, integral) == count(rest, node.var) / count(integral, node.var):
                 self._u = integral
+                self._rest = const * rest
                 return True
 
         return False
 
     def forward(self, node: Node) -> None:
         intermediate = generate_intermediate_var()
-        du_dx = self._u.diff(node.var)
-        new_integrand = replace((node.expr / du_dx), self._u, intermediate)
+        # term is const * du_dx (dividing by du_dx instead may leave the old variable behind if it is not simplified)
+        new_integrand = replace(self._rest, self._u, intermediate)
         node.add_child(Node(new_integrand, intermediate, self, node))
         self._u = self._u
 
-- 
2.43.0


From 94a86fa4811c60b53e6d05f4832233edd968cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:47 +0000
Subject: [PATCH 42/43] fix: integration by parts divided by a rounding error
 when a loop with floats closes (1 - 0.9999999999999998)

---
 src/simpy/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index a1cb6e4..17fe39b 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -10,6 +10,7 @@ import numpy as np
 from .expr import (
     Abs,
     Expr,
+    Float,
     Num,
     Power,
     Prod,
@@ -707,6 +708,11 @@ def _parents(node: Node) -> List[Node]:
     return [node] + _parents(node.parent)
 
 
+def _is_one(factor: Expr) -> bool:
+    """Floats get here with rounding errors: dividing by 1 - 0.9999999999999998 is as wrong as dividing by zero."""
+    return factor == 1 or isinstance(factor, Float) and abs(factor.value - 1) < 1e-9
+
+
 class ByParts(Transform):
     """Integration by parts"""
 
@@ -738,7 +744,7 @@ class ByParts(Transform):
         # which is invalid
         integrand2 = du * v * -1
         factor = integrand2 / node.expr
-        if factor == 1:
+        if _is_one(factor):
             return False
 
         # check for more layers above -- if any of the integrands is the same, factor = 1 and it's a nogo.
@@ -752,7 +758,7 @@ class ByParts(Transform):
         parent_byparts = ByParts._get_last_byparts_parent(node)
         if parent_byparts:
             first_factor = ByParts._get_first_factor(parent_byparts, node)
-            if first_factor is not None and first_factor * (integrand2 / parent_byparts.expr) == 1:
+            if first_factor is not None and _is_one(first_factor * (integrand2 / parent_byparts.expr)):
                 return False
         return True
 
-- 
2.43.0


From 4d0e7b5a86816306363671f19bb2ca9bb9948c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:35 +0000
Subject: [PATCH 43/43] fix: a rational power with a huge denominator computed
 its root by a huge power

---
 src/simpy/expr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b2e939d..06014da 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -737,6 +737,8 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
 
 def _integer_root(n: int, k: int) -> int:
     """The largest r with r**k <= n, for n >= 1."""
+    if n.bit_length() <= k:
+        return 1  # n < 2**k
     if k == 2:
         return math.isqrt(n)
     r = 1 << -(-n.bit_length() // k)
-- 
2.43.0

