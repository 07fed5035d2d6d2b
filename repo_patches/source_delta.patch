From b10b822e8df642041005c20613453b6eed265c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:09 +0000
Subject: [PATCH 01/82] fix: densities evaluated on integer arrays were
 truncated to integers

---
 pacal/segments.py       | 12 ++++++------
 pacal/standard_distr.py | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index dd0241e..b879c43 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -81,7 +81,7 @@ def _op_one_over_xsqaure(x):
             y = np.inf
     else:
         mask = (x != 0.0)
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[mask] = 1.0 / (x[mask])**2
     return y
 
@@ -154,7 +154,7 @@ class Segment(object):
                 return self.f(x)
             else:
                 return 0
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         ind = where((x>=self.a) & (x<=self.b))
         if len(ind)>0:
             y[ind] = self.f(x[ind])
@@ -476,7 +476,7 @@ class ConstFun(object):
     def __call__(self, x):
         if isscalar(x):
             return self.c
-        return zeros_like(x) + self.c
+        return zeros_like(x, dtype=float) + self.c
 class ConstSegment(Segment):
     """constant function over finite interval
     """
@@ -680,7 +680,7 @@ class DiracSegment(Segment):
         if isscalar(x):
             y = (x==self.a) * 1
         else:
-            y=zeros_like(x)
+            y=zeros_like(x, dtype=float)
             y[x==self.a] = 1 # TODO it should be Inf or self.f
         return y
     def integrate(self, a, b):
@@ -954,7 +954,7 @@ class InterpolatedSegmentWithPole2(InterpolatedSegmentWithPole):
         if isscalar(x):
             x=array(x)
         ind = where((x>=self.a) & (x<=self.b))
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[ind] = self.f(x[ind])/abs(x[ind]-self.pole) ** self.exponent
         return y
 
@@ -1073,7 +1073,7 @@ class PiecewiseFunction(object):
             return None
         else:
             # iterate over segments
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             for seg in self.getSegments():#segments:
                 ind = ((x>=seg.a) & (x<seg.b))
                 if ind.any():
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 872caa6..2854a6a 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -331,7 +331,7 @@ class ExponentialDistr(Distr):
             else:
                 y = self.lmbda * exp(-self.lmbda * x)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0)
             y[mask] = self.lmbda * exp(-self.lmbda * x[mask])
         return y
@@ -378,7 +378,7 @@ class GammaDistr(Distr):
             else:
                 y = exp(self.log_pdf(x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = exp(self.log_pdf(x[mask]))
             mask_zero = (x == 0)
@@ -421,7 +421,7 @@ class BetaDistr(Distr):
             else:
                 y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
             y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
         return y
@@ -471,7 +471,7 @@ class ParetoDistr(Distr):
             else:
                 y = self.nrm / x ** (self.alpha + 1)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= self.xmin)
             y[mask] = self.nrm / x[mask] ** (self.alpha + 1)
         return y
@@ -503,7 +503,7 @@ class LevyDistr(Distr):
             else:
                 y = self.nrm * exp(log(x - self.xmin)*(-1.5) -0.5 * self.c / (x - self.xmin))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > self.xmin)
             y[mask] = self.nrm * exp(log(x[mask] - self.xmin)*(-1.5) -0.5 * self.c / (x[mask] - self.xmin))
         return y
@@ -587,7 +587,7 @@ class SemicircleDistr(Distr):
                 y = self.norm * sqrt(self.R*self.R - x*x)
         else:
             mask = (-self.R <= x) & (x <= self.R)
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[mask] = self.norm * sqrt(self.R*self.R - x*x)
         return y
     def init_piecewise_pdf(self):
@@ -628,7 +628,7 @@ class FDistr(Distr):
                 lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x) - (self.df1 + self.df2) * log(self.df1 * x + self.df2)) - log(x)
                 y = exp(lgy)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x==0] = self.pdf_at_0
             mask = (x > 0)
             lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x[mask]) - (self.df1 + self.df2) * log(self.df1 * x[mask] + self.df2)) - log(x[mask])
@@ -680,7 +680,7 @@ class WeibullDistr(Distr):
             else:
                 y = self.nrm * exp(log(x / self.lmbda)*(self.k-1) - (x / self.lmbda)**self.k)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = self.nrm * exp(log(x[mask] / self.lmbda)*(self.k-1) - (x[mask] / self.lmbda)**self.k)
             mask_zero = (x == 0)
@@ -765,7 +765,7 @@ class FrechetDistr(Distr):
             else:
                 y = self.nrm * exp(-(self.alpha+1) * log(t) - t ** (-self.alpha))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (t > 0)
             y[mask] = self.nrm * exp(-(self.alpha+1) * log(t[mask]) - t[mask] ** (-self.alpha))
         return y
@@ -818,7 +818,7 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         mask = (x >= 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
@@ -877,7 +877,7 @@ class MollifierDistr(Distr):
                 t = x / self.epsilon
                 y = self.nrm * exp(-1.0 / (1 - t*t))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (abs(x) < self.epsilon)
             y[mask] = self.nrm * exp(-1.0 / (1 - (x[mask] / self.epsilon)**2))
         return y
-- 
2.43.0


From 7d93e59f42d14993681b6ade62fb12581cbadc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:20 +0000
Subject: [PATCH 02/82] fix: quotient by a variable with atoms read the
 numerator density at the wrong point

---
 pacal/indeparith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 027b5b8..c17f2c2 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -566,7 +566,7 @@ class Convxrunner(object):
                 e = 0.0
                 assert (segi.a != 0.0)
             elif segi.isSegment() and segj.isDirac():
-                i = segj.f*segi.f(segj.a)*abs(segj.a)
+                i = segj.f*segi.f(x*segj.a)*abs(segj.a)
                 e = 0.0
                 assert (segj.a != 0.0)
             I += i
@@ -615,7 +615,7 @@ class Convxrunner(object):
 
             elif segi.isSegment() and segj.isDirac():
                 assert (segj.a != 0.0)
-                i = segj.f * segi.f(segj.a) * abs(segj.a)
+                i = segj.f * segi.f(x * segj.a) * abs(segj.a)
                 e = 0
             I += i
             err += e
-- 
2.43.0


From 9b67a4c2fe9070572261eba3aebd0c233f45cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 03/82] fix: sigmoid of a number raised NameError and the
 inverse of the sigmoid was taken outside (0,1)

---
 pacal/distr.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 98e6946..08a1d9d 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -739,7 +739,7 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid")
 
     def f(self, x):
         if isscalar(x):
@@ -757,23 +757,23 @@ class SigmoidDistr(FuncDistr):
         return y
     def f_inv(self, x):
         if isscalar(x):
-            if x <= -1 or x >= 1:
+            if x <= 0 or x >= 1:
                 y = 0
             else:
                 y = numpy.log(x / (1.0-x))
         else:
-            mask = (x > -1) & (x < 1)
+            mask = (x > 0) & (x < 1)
             y = zeros_like(x, dtype=float)
             y[mask] = numpy.log(x[mask] / (1.0-x[mask]))
         return y
     def f_inv_deriv(self, x):
         if isscalar(x):
-            if x <= -1 or x >= 1:
+            if x <= 0 or x >= 1:
                 y = 0
             else:
                 y = 1.0 / (x*(1 - x))
         else:
-            mask = (x > -1) & (x < 1)
+            mask = (x > 0) & (x < 1)
             y = zeros_like(x, dtype=float)
             y[mask] = 1.0 / (x[mask] * (1 - x[mask]))
         return y
@@ -782,17 +782,18 @@ def sigmoid(d):
     """Overload the tanh function."""
     if isinstance(d, Distr):
         return SigmoidDistr(d)
-    if isscalar(x):
-        if x > 0:
-            y = 1.0 / (1.0 + numpy.exp(-x))
+    if isscalar(d):
+        if d > 0:
+            y = 1.0 / (1.0 + numpy.exp(-d))
         else:
-            ex = numpy.exp(x)
+            ex = numpy.exp(d)
             y =  ex / (ex + 1.0)
     else:
-        y = zeros_like(x, dtype=float)
-        mask = (x > 0)
-        y[mask] = 1.0 / (1.0 + numpy.exp(-x[mask]))
-        ex = numpy.exp(x[~mask])
+        d = asarray(d)
+        y = zeros_like(d, dtype=float)
+        mask = (d > 0)
+        y[mask] = 1.0 / (1.0 + numpy.exp(-d[mask]))
+        ex = numpy.exp(d[~mask])
         y[~mask] = ex / (ex + 1.0)
     return y
 
-- 
2.43.0


From c60597d068ae89a984fd706230461153f685cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 04/82] fix: density of the reciprocal failed on arrays
 containing zero

---
 pacal/distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 08a1d9d..3f182ee 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -809,7 +809,7 @@ class InvDistr(InvRV, OpDistr):
         else:
             y = zeros_like(x, dtype=float)
             mask = x != 0
-            y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
+            y[mask] = self.d.pdf(1.0/x[mask])/x[mask]**2
         return y
     def rand_op(self, n, cache):
         return 1.0/self.d.rand(n, cache)
@@ -854,7 +854,7 @@ class PowDistr(PowRV, OpDistr):
         else:
             y = zeros_like(x, dtype=float)
             mask = x != 0
-            y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
+            y[mask] = self.d.pdf(1.0/x[mask])/x[mask]**2
         return y
     def __str__(self):
         return "#{0}**{1}".format(id(self.d1), self.alpha)
-- 
2.43.0


From 6c15ae7cc87d8b027ae170463b4ff5d0ef1e2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 05/82] fix: density of the square failed on arrays

---
 pacal/distr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 3f182ee..cbd6ade 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -926,10 +926,16 @@ class SquareDistr(OpDistr):
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
     def pdf(self,x):
-        if x <= 0:  # won't work for x == 0
-            f = 0
+        if isscalar(x):
+            if x <= 0:  # won't work for x == 0
+                f = 0
+            else:
+                f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
         else:
-            f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
+            f = zeros_like(x, dtype=float)
+            mask = x > 0
+            r = sqrt(x[mask])
+            f[mask] = (self.d.pdf(-r) + self.d.pdf(r)) /(2*r)
         return f
     def rand_op(self, n, cache):
         r = self.d.rand(n, cache)
-- 
2.43.0


From 55586a616ae44338c1586912c15dd031f04a264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:25 +0000
Subject: [PATCH 06/82] fix: skewness and kurtosis of a constant raised
 NameError

---
 pacal/distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index cbd6ade..85c316c 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -167,12 +167,12 @@ class Distr(RV):
         if not self.var() == 0:
             return self.moment(3, self.mean()) / self.var()**1.5
         else:
-            return NaN
+            return numpy.nan
     def kurtosis(self):
         if not self.var() == 0:
             return self.moment(4, self.mean()) / self.var()**2
         else:
-            return NaN
+            return numpy.nan
     def mgf(self):
         return PiecewiseFunction(fun=partial(_mgf_fun, self), breakPoints=self.get_piecewise_pdf().getBreaks())
     def cf(self):
-- 
2.43.0


From c2b90c708e68a7b18f3bc10598af3303af9e05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:41 +0000
Subject: [PATCH 07/82] fix: sin of a variable: second branch of the inverse
 was wrong; sin and cos are not nonnegative

---
 pacal/distr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 85c316c..0ec7bb5 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1007,7 +1007,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         return True
 
 def _pi_m_arcsin(x):
-    return 2*pi-arccos(x)
+    return pi-arcsin(x)
 def _arcsin_der1(x):
     return (1-x**2)**(-0.5)
 def _arcsin_der2(x):
@@ -1022,7 +1022,7 @@ class SinDistr(FuncNoninjectiveDistr):
         self.pole_at_zero = False
         super(SinDistr, self).__init__(d, fname = "sin")
     def is_nonneg(self):
-        return True
+        return False
 def sin(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1045,7 +1045,7 @@ class CosDistr(FuncNoninjectiveDistr):
         self.pole_at_zero = False
         super(CosDistr, self).__init__(d, fname = "cos")
     def is_nonneg(self):
-        return True
+        return False
 def cos(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
-- 
2.43.0


From 6dab6711f5aaeda319862540f466788d8dd3a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:41 +0000
Subject: [PATCH 08/82] fix: samples of non-injective functions of discrete
 variables were truncated to integers

---
 pacal/distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 0ec7bb5..0b40280 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -986,7 +986,7 @@ class FuncNoninjectiveDistr(OpDistr):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
         X = self.d.rand(n, cache)
-        Y = zeros_like(X)
+        Y = zeros_like(X, dtype=float)
         for i in range(len(self.intervals)):
             mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
             Y[mask] = self.fs[i](X[mask])
-- 
2.43.0


From 0a3132d109696524f3b2c8ab8a42f1ca68b398b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 09/82] fix: range of affine images ignored the range of the
 argument; range of a difference subtracted matching ends

---
 pacal/rv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c0f29f1..a877a31 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -333,8 +333,9 @@ class ShiftedScaledRV(OpRV):
         self.shift = shift
         self.scale = scale
         super(ShiftedScaledRV, self).__init__([d], sym = (d.getSymname() * self.scale + self.shift))
-        a = d.a * self.scale + self.shift
-        b = d.b * self.scale + self.shift
+        a, b = d.range()
+        a = a * self.scale + self.shift
+        b = b * self.scale + self.shift
         self.a, self.b = min(a, b), max(a, b)
         self.d = d
     def __str__(self):
@@ -462,7 +463,7 @@ class SubRV(OpRV):
         #self.a, self.b = min(breaks), max(breaks)
         a1, b1 = d1.range()
         a2, b2 = d2.range()
-        self.a, self.b = a1-a2, b1-b2
+        self.a, self.b = a1-b2, b1-a2
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
-- 
2.43.0


From 678387910fe7463421c77a27de8ad44cf543f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 10/82] fix: range of products and quotients: indeterminate
 corners gave nan and zero in the denominator dropped one infinite end

---
 pacal/rv.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index a877a31..c654334 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -474,11 +474,20 @@ class SubRV(OpRV):
     def getOperation(self):
         return "-"
 
+def _ends_range(op, r1, r2):
+    """Range of op over intervals r1, r2, where op is monotone in both
+    arguments.  Indeterminate values (0*inf, 0/0, inf/inf) stand for 0: the
+    other limits at such a corner are covered by the remaining ends."""
+    with numpy.errstate(all = "ignore"):
+        ends = op.outer(r1, r2)
+    ends[numpy.isnan(ends)] = 0.0
+    return ends.min(), ends.max()
+
 class MulRV(OpRV):
     def __init__(self, d1, d2):
         super(MulRV, self).__init__([d1, d2], sym = d1.getSymname() * d2.getSymname())
-        breaks = unique(multiply.outer(d1.range(), d2.range()))
-        self.a, self.b = min(breaks), max(breaks)
+        self.a, self.b = _ends_range(multiply, [float(x) for x in d1.range()],
+                                     [float(x) for x in d2.range()])
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -493,14 +502,14 @@ class MulRV(OpRV):
 class DivRV(OpRV):
     def __init__(self, d1, d2):
         super(DivRV, self).__init__([d1, d2], sym = d1.getSymname() / d2.getSymname())
-        d1range = list(d1.range())
-        d2range = list(d2.range())
-        if prod(d1range)<0:
-            d1range.append(0.0)
-        if prod(d2range)<0:
-            d2range.append(0.0)
-        breaks = unique(divide.outer(d1range, d2range))
-        self.a, self.b = min(breaks), max(breaks)
+        a2, b2 = d2.range()
+        if a2 < 0 < b2:
+            self.a, self.b = -numpy.inf, numpy.inf
+        else:
+            # a zero end is approached from inside of the range
+            d2range = [abs(float(a2)) if a2 == 0 else float(a2),
+                       -abs(float(b2)) if b2 == 0 else float(b2)]
+            self.a, self.b = _ends_range(divide, [float(x) for x in d1.range()], d2range)
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
-- 
2.43.0


From 264ae8cdeb41dbd417382593676fbd2bc2571d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 11/82] fix: abs and sign of a symbolic random variable failed

---
 pacal/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c654334..fd6c1ac 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -411,7 +411,7 @@ class PowRV(FuncRV):
 class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymame())) # TODO abs unpleasant in sympy
+        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
@@ -421,7 +421,7 @@ class AbsRV(OpRV):
 class SignRV(RV):
     def __init__(self, d):
         self.d = d
-        super(SignRV, self).__init__(d, sym = sympy.sign(d.getSymname()))
+        super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
-- 
2.43.0


From 0a6c93763fc85d3c7ccd211aa6ce6d277ec3646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 12/82] fix: samples of a mixture ignored the mixing
 probabilities

---
 pacal/standard_distr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 2854a6a..8c7f7af 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -5,7 +5,7 @@ from __future__ import print_function
 import numpy as np
 from numpy import isscalar, zeros_like, zeros, cumsum, array, searchsorted, bincount
 from numpy import pi, sqrt, exp, log, log1p, cos, floor
-from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel, randint
+from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel, choice
 from numpy.random import f as f_rand
 
 from numpy import finfo, double
@@ -93,10 +93,12 @@ class MixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         r = zeros(n)
-        idx = randint(0, self.nmix, n)
-        nk = bincount(idx, minlength = self.nmix)
+        idx = choice(self.nmix, n, p = self.probs)
+        nk = bincount(idx.ravel(), minlength = self.nmix)
         for k in range(self.nmix):
             r[idx == k] = self.distrs[k].rand(nk[k])
         return r
-- 
2.43.0


From e73973ebbb17e337c7f973bd3e9705bb82944d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 13/82] fix: scalar samples of discrete and constant
 distributions failed; the index clamp was off by one

---
 pacal/distr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 0b40280..62fce07 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1094,10 +1094,9 @@ class DiscreteDistr(Distr):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
         for i in range(len(self.xi)-1):
             self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         u = uniform(0, 1, n)
-        i = searchsorted(self.cumP, u)
-        i[i > len(self.xi)] = len(self.xi)
+        i = minimum(searchsorted(self.cumP, u), len(self.xi) - 1)
         return array(self.xi)[i]
     def __str__(self):
         pstr = ", ".join("{0}:{1}".format(x, p) for x, p in self.px)
@@ -1234,6 +1233,8 @@ class ConstDistr(DiscreteDistr):
         super(ConstDistr, self).__init__([c], [p], **kwargs)
         self.c = c
     def rand_raw(self, n = None):
+        if n is None:
+            return self.c
         r = zeros(n)
         r.fill(self.c)
         return r
-- 
2.43.0


From 1fc0fb8c51e0d15abafcbf8e98317748bed9af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 14/82] fix: ExtremeMixDistr could not be constructed

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 8c7f7af..f15aad9 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -118,7 +118,7 @@ class ExtremeMixDistr(Distr):
         probs -- list of pi's
         distrs -- list of distributions
         """
-        super(MixDistr, self).__init__()
+        super(ExtremeMixDistr, self).__init__()
         assert len(probs) == len(distrs)
         self.nmix = len(probs)
         self.probs = probs
-- 
2.43.0


From be5e666ffd570f6d78836d3208173ff82e50fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 15/82] fix: range of Gumbel and Frechet distributions

---
 pacal/standard_distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index f15aad9..24af5d0 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -748,7 +748,7 @@ class GumbelDistr(Distr):
     def getName(self):
         return "Gumbel({0},{1})".format(self.mu, self.sigma)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return -np.inf, np.inf
 
 class FrechetDistr(Distr):
     def __init__(self, alpha = 2, s = 1, m = 0, **kwargs):
@@ -791,7 +791,7 @@ class FrechetDistr(Distr):
     def getName(self):
         return "Frechet({0},{1},{2})".format(self.alpha, self.s, self.m)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return float(self.m), np.inf
 
 
 #f(x;\alpha ,\beta )= (k/s) * (x/s)**(k-1) / ((1 + (x/s)**k)**2)  # Wikipedia form
-- 
2.43.0


From 366b11eac79c72f7be344f60609ae656a01ab141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 16/82] fix: density at zero of Weibull(1, lambda) and of
 chi-square with 1 < df < 2

---
 pacal/standard_distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 24af5d0..5616c96 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -254,7 +254,7 @@ class ChiSquareDistr(Distr):
         self.df = df
         self.df2 = df / 2.0
         self.lg_norm = lgamma(self.df2) + self.df2 * log(2)
-        if self.df == 1:
+        if self.df < 2:
             self.pdf_at_0 = np.inf
             self.lpdf_at_0 = np.inf
         elif self.df == 2:
@@ -670,7 +670,7 @@ class WeibullDistr(Distr):
         if self.k < 1:
             self.pdf_at_0 = np.inf
         elif self.k == 1:
-            self.pdf_at_0 = 1
+            self.pdf_at_0 = self.nrm
         else:
             self.pdf_at_0 = 0
     def pdf(self, x):
-- 
2.43.0


From 48943726916a39bd0e86a1dc4a2ea8c8cb2b770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 17/82] fix: density of the semicircle distribution failed
 outside of its support

---
 pacal/standard_distr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 5616c96..a5754bd 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -587,10 +587,12 @@ class SemicircleDistr(Distr):
         if isscalar(x):
             if -self.R <= x <= self.R:
                 y = self.norm * sqrt(self.R*self.R - x*x)
+            else:
+                y = 0
         else:
             mask = (-self.R <= x) & (x <= self.R)
             y = zeros_like(x, dtype=float)
-            y[mask] = self.norm * sqrt(self.R*self.R - x*x)
+            y[mask] = self.norm * sqrt(self.R*self.R - x[mask]*x[mask])
         return y
     def init_piecewise_pdf(self):
         # split at inflection points
-- 
2.43.0


From 78e5ed8072560c005021b06df5ed1fcb5b1bcbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:55 +0000
Subject: [PATCH 18/82] fix: log-logistic distribution: arrays with points
 outside of the support, density at zero, error messages; printing of
 truncated discrete distributions

---
 pacal/standard_distr.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index a5754bd..4629fb9 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -807,9 +807,9 @@ class FrechetDistr(Distr):
 class LogLogisticDistr(Distr):
     def __init__(self, k, s=1.0, **kwargs):
         if k <= 0:
-            raise RuntimeError("Shape parameter k must be > 0, got {}".format(alpha))
+            raise RuntimeError("Shape parameter k must be > 0, got {}".format(k))
         if s <= 0:
-            raise RuntimeError("Scale parameter s must be > 0, got {}".format(beta))
+            raise RuntimeError("Scale parameter s must be > 0, got {}".format(s))
         super().__init__(**kwargs)
         self.k = k
         self.s = s
@@ -822,12 +822,17 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
+        x = np.asarray(x)
         y = zeros_like(x, dtype=float)
-        mask = (x >= 0)
+        mask = (x > 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
         #  / ((self.s_pow_k + x[mask]**self.k)**2)
-        y[mask] = np.exp(self.log_pdf(x))
+        y[mask] = np.exp(self.log_pdf(x[mask]))
+        if self.k < 1:
+            y[x == 0] = np.inf
+        elif self.k == 1:
+            y[x == 0] = 1.0 / self.s
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
@@ -854,7 +859,7 @@ class LogLogisticDistr(Distr):
                                                    breakPoints = breakPoints,
                                                    lpoles=lpoles)
     def rand_raw(self, n = None):
-        u = uniform(self.a, self.b, n)
+        u = uniform(0, 1, n)
         ll = self.s * (u / (1-u))**(1.0 / self.k)
         return ll
     def __str__(self):
@@ -934,7 +939,7 @@ class TruncDiscreteFunDistr(DiscreteDistr):
         pi = [p/S for p in pi]
         super(TruncDiscreteFunDistr, self).__init__(xi, pi, **kwargs)
     def __str__(self):
-        return "TruncDiscreteFunDistr({0})#{1}".format(self.trunk_epsself.id())
+        return "TruncDiscreteFunDistr({0})#{1}".format(self.trunk_eps, self.id())
     def getName(self):
         return "TruncDiscreteFunDistr({0})".format(self.trunk_eps)
 
-- 
2.43.0


From 64c2e799b4c48db46e948b0445edc097ccf39995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:07 +0000
Subject: [PATCH 19/82] fix: piecewise function minus a number gave the
 opposite sign, divided by a number failed

---
 pacal/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index b879c43..268f8bd 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1577,7 +1577,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.sub)
         elif isinstance(other, numbers.Real):
-            return self.__rsub__(other)
+            return self._roperation__(other, operation = operator.sub)
         return NotImplemented
     def __mul__(self, other):
         if isinstance(other, PiecewiseFunction):
@@ -1590,7 +1590,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.truediv)
         elif isinstance(other, numbers.Real):
-            return self._operation__(other, operation = operator.truediv)
+            return self._roperation__(other, operation = operator.truediv)
         return NotImplemented
     def __div__(self, other):
         #TODO handle zeros in denominator, !!!currently unhandled!!!
-- 
2.43.0


From 7c7d605c20dc134120e72dce4b6df8c58e6cf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:33 +0000
Subject: [PATCH 20/82] fix: reciprocal of a variable with atoms produced a
 continuous segment with a number for a density

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 268f8bd..dd3bee9 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -360,6 +360,8 @@ class Segment(object):
         """
         g = _op_one_over_x
         ginv = _op_one_over_x
+        if self.isDirac():
+            return DiracSegment(g(self.a), self.f)
         fun = partial(_prob_composition_safe, self.f, _op_one_over_x, _op_one_over_xsqaure)
         if (self.a==0):
             if  g(self.b)<0:
-- 
2.43.0


From cb2d9f29dd1f4ac55c6449d790971e7e67781311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 21/82] fix: gaps in the support: scalar density was taken from
 the next segment, cdf had no values between segments

---
 pacal/segments.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index dd3bee9..de9d797 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1104,20 +1104,11 @@ class PiecewiseFunction(object):
         """It return segment containing point x"""
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
-        if  0 < ind < len(self.segments):
+        if ind < len(self.segments) and self.segments[ind].a <= x <= self.segments[ind].b:
             return self.segments[ind]
-        elif ind == 0:
-            if self.segments[ind].a <= x <= self.segments[ind].b :
-                return  self.segments[ind]
-            else :
-                return None
-        elif ind == len(self.segments):
-            if self.segments[ind-1].b == x:
-                return  self.segments[ind-1]
-            else :
-                return None
-        else:
-            assert(False)
+        if ind > 0 and self.segments[ind-1].b == x:
+            return self.segments[ind-1]
+        return None # x is outside of all segments (possibly in a gap between them)
 
     def findSegmentByEnds(self, a, b):
         """Return the segment with end points (a,b)"""
@@ -1165,7 +1156,12 @@ class PiecewiseFunction(object):
     def cumint(self):
         integralPFun = CumulativePiecewiseFunction([])
         f0 = 0
+        right = None
         for seg in self.segments:
+            if right is not None and right < seg.a:
+                # no density between the segments: the integral is constant
+                integralPFun.addSegment(Segment(right, seg.a, ConstFun(f0)))
+            right = seg.b
             if seg.isPInf():
                 f0 = f0 + seg.integrate(seg.a)
             segi = seg.cumint(f0)
-- 
2.43.0


From 5726c3db036042378acd0ed5f2e74724cdd37b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:48 +0000
Subject: [PATCH 22/82] fix: branches of the inverse of the square were swapped

---
 pacal/distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 62fce07..2910be8 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -999,8 +999,8 @@ class Sq2Distr(FuncNoninjectiveDistr):
     def __init__(self, d):
         self.intervals = [[-Inf, 0], [0, +Inf]]
         self.fs = [lambda x: x**2, lambda x: x**2]
-        self.f_invs = [lambda x: x**0.5,lambda x: -x**0.5]
-        self.f_inv_derivs = [lambda x: 0.5*x**(-0.5),lambda x: -0.5*x**(-0.5)]
+        self.f_invs = [lambda x: -x**0.5,lambda x: x**0.5]
+        self.f_inv_derivs = [lambda x: -0.5*x**(-0.5),lambda x: 0.5*x**(-0.5)]
         self.pole_at_zero = True
         super(Sq2Distr, self).__init__(d, fname = "sin")
     def is_nonneg(self):
-- 
2.43.0


From 68997e14b0832499c61cac1124c6dfb6a5b08555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:33 +0000
Subject: [PATCH 23/82] fix: sign of the infinite end of an image was guessed
 from the other end

---
 pacal/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index de9d797..6ce0aa8 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -331,13 +331,13 @@ class Segment(object):
         #print fun.func, fun.args
         if (isinf(g(array([self.a])))):
         #if (self.a==0):
-            if  g(self.b)<0:
+            if isneginf(g(array([self.a])))[0]:
                 return MInfSegment(g(self.b), fun)
             else:
                 return PInfSegment(g(self.b), fun)
         if (isinf(g(array([self.b])))):
         #elif (self.b==0):
-            if g(self.a)>0:
+            if isposinf(g(array([self.b])))[0]:
                 return PInfSegment(g(self.a), fun)
             else:
                 return MInfSegment(g(self.a), fun)
-- 
2.43.0


From 7c185f4898a85d1c3ece923d4c37a696e196b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:33 +0000
Subject: [PATCH 24/82] fix: poles of the second operand were lost in sums of
 piecewise functions

---
 pacal/segments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 6ce0aa8..2c50ae1 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1690,13 +1690,15 @@ class PiecewiseFunction(object):
                 seg = segf
             if seg is None: # only diracs
                 continue
+            left_pole = any(s is not None and s.hasLeftPole() for s in (segf, segg))
+            right_pole = any(s is not None and s.hasRightPole() for s in (segf, segg))
             if seg.isMInf():
                 fun.addSegment(MInfSegment(seg.b, make_segfun(segf, segg)))
             elif seg.isPInf():
                 fun.addSegment(PInfSegment(seg.a, make_segfun(segf, segg)))
-            elif seg.isSegment() and seg.hasLeftPole():
+            elif seg.isSegment() and left_pole:
                 fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = True))
-            elif seg.isSegment() and seg.hasRightPole():
+            elif seg.isSegment() and right_pole:
                 fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = False))
             elif seg.isSegment():
                 si=Segment(seg.a, seg.b, make_segfun(segf, segg))
-- 
2.43.0


From e2a38a1140eec3b833a7dd08865c17aeaaecb7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:33 +0000
Subject: [PATCH 25/82] fix: pole at zero of the square of an infinite segment
 was ignored

---
 pacal/segments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 2c50ae1..a22073c 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1422,7 +1422,8 @@ class PiecewiseFunction(object):
         return copyFunction
     def copySquareComposition(self):
         """Composition with x^2"""
-        fun = self.splitByPoints([0.0])
+        # an infinite segment starting at zero would hide the pole of the square
+        fun = self.splitByPoints([-1.0, 0.0, 1.0])
         copyFunction = self.__class__([])
         leftFunction = self.__class__([])
         rightFunction = self.__class__([])
-- 
2.43.0


From 176c35d64cbda24441d274f27d4283fb2eeb6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:03 +0000
Subject: [PATCH 26/82] fix: points out of order or repeated produced
 overlapping pieces when a piecewise function was split

---
 pacal/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index a22073c..f22ea36 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1757,8 +1757,8 @@ class PiecewiseFunction(object):
                     fun.addSegment(seg)
         return fun
     def splitByPoints(self, points):
-        """Pointwise subtraction of two piecewise functions """
-        points = array(points)
+        """Split segments at given points """
+        points = unique(array(points))
         fun = self.__class__([])
         for seg in self.segments:
             inds = points[(seg.a<points) & (points<seg.b)]
-- 
2.43.0


From 5fa9886f6c65460ce680b7d7ae196b2ea08acbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:09 +0000
Subject: [PATCH 27/82] fix: piecewise function with right poles at two
 neighbouring break points could not be constructed

---
 pacal/segments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index f22ea36..5df459c 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1023,7 +1023,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[0], self.breaks[1], fun))
                 elif self.lpoles[0] == True and self.rpoles[1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = True))
-                elif self.rpoles[0] == False and self.rpoles[1] == True:
+                elif self.lpoles[0] == False and self.rpoles[1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = False))
                 else:
                     assert(False) #  no segment of such type
@@ -1035,7 +1035,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[i], self.breaks[i+1], fun))
                 elif self.lpoles[i] == True and self.rpoles[i+1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = True))
-                elif self.rpoles[i] == False and self.rpoles[i+1] == True:
+                elif self.lpoles[i] == False and self.rpoles[i+1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = False))
                 else:
                     assert(False) # no segment of such type
@@ -1047,7 +1047,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[-2], self.breaks[-1], fun))
                 elif self.lpoles[-2] == True and self.rpoles[-1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = True))
-                elif self.rpoles[-2] == False and self.rpoles[-1] == True:
+                elif self.lpoles[-2] == False and self.rpoles[-1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = False))
                 else:
                     assert(False) # no segment of such type
-- 
2.43.0


From 3c3ad623451b002dfc70f35f6ebfcb813fad671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:30 +0000
Subject: [PATCH 28/82] fix: break points after a gap were missing from sums of
 piecewise distributions

---
 pacal/segments.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 5df459c..0c49a89 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1465,7 +1465,11 @@ class PiecewiseFunction(object):
         if len(segments) == 0:
             return []
         breaks = [breakPoint(segments[0].a, False, False)]
+        left = [] # position of the left end of each segment
         for seg in segments:
+            if seg.a != breaks[-1].x: # gap before the segment
+                breaks.append(breakPoint(seg.a, False, False))
+            left.append(len(breaks) - 1)
             if seg.isDirac():
                 breaks[-1].dirac = True
             if seg.hasLeftPole():
@@ -1482,11 +1486,16 @@ class PiecewiseFunction(object):
         if not seg.isDirac() and not isinf(seg.b) and (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps):
             breaks[-1].Cont = False
         for i, seg in enumerate(segments[1:]):
-            if not seg.isDirac() and not segments[i].isDirac():
-                if not segments[i].hasRightPole() and not seg.hasLeftPole():
-                    if (segments[i].hasRightPole() or seg.hasLeftPole()
-                        or abs(segments[i].f(self.segments[i].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps):
-                        breaks[i+1].Cont = False
+            prev = segments[i]
+            if seg.a != prev.b: # gap
+                if not prev.isDirac() and (prev.hasRightPole() or prev.f(prev.b) > params.pole_detection.continuity_eps):
+                    breaks[left[i]+1].Cont = False
+                if not seg.isDirac() and (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps):
+                    breaks[left[i+1]].Cont = False
+            elif not seg.isDirac() and not prev.isDirac():
+                if not prev.hasRightPole() and not seg.hasLeftPole():
+                    if abs(prev.f(prev.b) - seg.f(seg.a)) > params.pole_detection.continuity_eps:
+                        breaks[left[i+1]].Cont = False
         return breaks
 
     def getBreaks(self):
-- 
2.43.0


From c7093b64cc1292c507adeace323d4a275a85d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 29/82] fix: integral of a segment over an interval after or
 before it was not zero

---
 pacal/segments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 0c49a89..94ea723 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -166,6 +166,8 @@ class Segment(object):
             a=self.a
         if b==None or b>self.b:
             b=self.b
+        if a >= b:
+            return 0.0
         #i,e = integrate_fejer2(self, self.a, self.b, debug_plot = False)
         i,e = integrate_fejer2(self, a, b, debug_plot = False)
         return i
@@ -493,6 +495,8 @@ class ConstSegment(Segment):
             a=self.a
         if b==None or b>self.b:
             b=self.b
+        if a >= b:
+            return 0.0
         return self.const*(b-a)
     #def f(self, x):
     #    return 0.0*x + self.const
@@ -808,7 +812,7 @@ class SegmentWithPole(Segment):
             a = self.a
         if b == None or b > self.b:
             b = self.b
-        if a == b:
+        if a >= b:
             return 0.0
         if self.hasLeftPole() and a == self.a:
             i,e = integrate_fejer2_Xn_transformP(self, a, b)
-- 
2.43.0


From 3554a84c313099f6320fe95f4cc5de766ae6fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 30/82] fix: rounding moved interpolation points out of the
 interval

---
 pacal/interpolation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index c1f33fe..08db671 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -25,7 +25,7 @@ import numpy as np
 from numpy import array, asarray, zeros_like, ones_like, asarray, atleast_1d
 from numpy import array_split, concatenate, squeeze
 from numpy import where, dot, zeros
-from numpy import maximum
+from numpy import maximum, minimum
 from numpy import newaxis, subtract, isscalar, hstack
 from numpy import finfo, size, double
 from numpy import isnan, isinf
@@ -506,7 +506,8 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
 #class LogTransformInterpolator(ChebyshevInterpolatorNoR2):
 #class LogTransformInterpolator(ChebyshevInterpolator1):
     def xt(self, x):
-        return expm1(x) + self.offset
+        # rounding must not move the point out of the interval
+        return minimum(maximum(expm1(x) + self.offset, self.orig_a), self.orig_b)
     def xtinv(self, x):
         return log1p(x - self.offset)
     def __init__(self, f, a, b=None, offset=1, par=None, *args, **kwargs):
@@ -590,7 +591,8 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
 #class PoleInterpolatorP(ChebyshevInterpolator1):
 class PoleInterpolatorP(ChebyshevInterpolatorNoL):
     def xt(self, x):
-        return (exp(x) + self.orig_a) + self.offset
+        # rounding must not move the point out of the interval
+        return minimum((exp(x) + self.orig_a) + self.offset, self.orig_b)
     def xtinv(self, x):
         return log((x - self.orig_a) + self.offset)
     def __init__(self, f, a, b, offset=1e-50, *args, **kwargs):
@@ -639,7 +641,8 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
 
 class PoleInterpolatorN(ChebyshevInterpolatorNoR):
     def xt(self, x):
-        return (-exp(x) + self.orig_b) - self.offset
+        # rounding must not move the point out of the interval
+        return maximum((-exp(x) + self.orig_b) - self.offset, self.orig_a)
     def xtinv(self, x):
         return log(-(x - self.orig_b) + self.offset)
     def __init__(self, f, a, b, offset=1e-50, *args, **kwargs):
-- 
2.43.0


From 14ac6e0eb01e6620ff91908a518b5a40655ee2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 31/82] fix: densities of minimum and maximum with a pole were
 infinite or inaccurate

---
 pacal/indeparith.py | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index c17f2c2..ca0af10 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -384,7 +384,8 @@ class Convxrunner(object):
                     funi = partial(funi_minx, segi, segj, x)
                     L = max(segi.a,x)
                     U = segi.b
-                    i, e = _segint(funi, L, U)
+                    poleL, poleU = _testConvPole(segi, L, U)
+                    i, e = _segint(funi, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)   # TODO
                     e=0
@@ -400,7 +401,8 @@ class Convxrunner(object):
                     funj = partial(funj_minx, segi, segj, x)
                     L = max(segj.a, x)
                     U = segj.b
-                    i, e = _segint(funj, L, U)
+                    poleL, poleU = _testConvPole(segj, L, U)
+                    i, e = _segint(funj, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -427,7 +429,8 @@ class Convxrunner(object):
                     L = segi.a
                     U = min(segi.b,x)
                     funi = partial(funi_maxx, segi, segj, x)
-                    i, e = _segint(funi, L, U)
+                    poleL, poleU = _testConvPole(segi, L, U)
+                    i, e = _segint(funi, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -443,7 +446,8 @@ class Convxrunner(object):
                     L = segj.a
                     U = min(segj.b,x)
                     funj = partial(funj_maxx, segi, segj, x)
-                    i, e = _segint(funj, L, U)
+                    poleL, poleU = _testConvPole(segj, L, U)
+                    i, e = _segint(funj, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -699,6 +703,26 @@ def epseq(a,b):
 #        wyn[j]=I
 #    return wyn
 
+def _interpolatedExtremeSegments(f, g, a, b, fun):
+    """Interpolated segments on (a, b) for the density fun of a minimum or maximum.
+
+    f and g are split at common points; poles of their segments may
+    show up in the result.
+    """
+    sing_a = sing_b = False
+    for seg in f.segments + g.segments:
+        if seg.hasLeftPole() and seg.a == a:
+            sing_a = True
+        if seg.hasRightPole() and seg.b == b:
+            sing_b = True
+    left_pole = sing_a and testPole(fun, a)
+    right_pole = sing_b and testPole(fun, b, pos = False)
+    if left_pole and right_pole:
+        m = (a + b) / 2.0
+        return [Segment(a, m, fun).toInterpolatedSegment(left_pole, sing_a),
+                Segment(m, b, fun).toInterpolatedSegment(False, False, right_pole, sing_b)]
+    return [Segment(a, b, fun).toInterpolatedSegment(left_pole, sing_a, right_pole, sing_b)]
+
 def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpoint !!!
     """Probabilistic minimum of f and g.
     """
@@ -730,10 +754,8 @@ def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpo
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2, op)
         #fun = partial(convminx, segList)
         fun = Convxrunner(segList, params.integration_finite).convminx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
-    fg_discr = convdiracs(f, g, fun = op)
+        for segint in _interpolatedExtremeSegments(f, g, ub[i], ub[i+1], fun):
+            fg.addSegment(segint)
 
     # Discrete parts of distribution
     fg_discr  =_probDiracsInMin(f, g)
@@ -821,9 +843,8 @@ def convmax(f, g):
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2.0, op)
         #fun = partial(convmaxx, segList)
         fun = Convxrunner(segList, params.integration_finite).convmaxx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        for segint in _interpolatedExtremeSegments(f, g, ub[i], ub[i+1], fun):
+            fg.addSegment(segint)
     # Discrete parts of distribution
     fg_discr  =_probDiracsInMax(f, g)
     fg.add_diracs(fg_discr)
-- 
2.43.0


From c35ee56924ca0ee64076df951e1de1d56443d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:11 +0000
Subject: [PATCH 32/82] fix: point mass at zero was lost in quotients

---
 pacal/indeparith.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index ca0af10..7d77e40 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1211,6 +1211,7 @@ def convdiv(f, g):
         fg_discr = convdiracs(f, g, fun = operator.truediv)
     except:
         fg_discr = convdiracs(f, g, fun = operator.div)
+    fg_discr.add_diracs(_probDiracAtZeroInDiv(f, g))
     for seg in fg_discr.getDiracs():
         fg.addSegment(seg)
     return fg
@@ -1449,6 +1450,20 @@ def _probDiracAtZeroInProd(f, g):
     else:
         return None
 
+def _probDiracAtZeroInDiv(f, g):
+    """return discrete part at point 0 for quotient of piecewise function f
+    and continuous part of g
+    """
+    mass = 0.0
+    for fi in f.getDiracs():
+        if fi.a == 0.0:
+            for seg in g.getSegments():
+                mass += seg.integrate() * fi.f
+    f_zero = PiecewiseDistribution([])
+    if mass > 0.0:
+        f_zero.addSegment(DiracSegment(0.0, mass))
+    return f_zero
+
 def _probDiracsInMin(f, g):
     """return discrete part of convmin
     """
-- 
2.43.0


From c5280dd8b66dd3c2a5e5f1ba79d87c6a9bd1c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 33/82] fix: conditional laws kept the mass outside of the
 condition for laws with atoms or poles

---
 pacal/distr.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 2910be8..134f027 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1243,20 +1243,21 @@ class ConstDistr(DiscreteDistr):
     def getName(self):
         return str(self.c)
 
+def _conditional_pdf(d, L=-numpy.inf, U=numpy.inf):
+    """Density of d under the condition L < d < U."""
+    pdf = PiecewiseDistribution([])
+    for seg in d.get_piecewise_pdf().restrictToInterval(L, U).segments:
+        if not (seg.isDirac() and seg.a == L):
+            pdf.addSegment(seg)
+    return pdf * (1.0 / pdf.integrate())
+
 class CondGtDistr(Distr):
     def __init__(self, d, L=None, **kwargs):
         self.L = L
         self.d = d
         super(CondGtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        Z = MaxDistr(ConstDistr(self.L), self.d)
-        # Do poprawki zostaja tu diraki o wys.=0, tak samo Lt
-        #print Z.get_piecewise_pdf(), self.L
-        while(Z.get_piecewise_pdf().segments[0].a<self.L):
-            diracB = Z.get_piecewise_pdf().segments.pop(0)
-        diracB = Z.get_piecewise_pdf().segments.pop(0)
-        #print Z.get_piecewise_pdf(), diracB
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        self.piecewise_pdf = _conditional_pdf(self.d, L=self.L)
     def __str__(self):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
@@ -1278,9 +1279,7 @@ class CondLtDistr(Distr):
         self.d = d
         super(CondLtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        Z = MinDistr(ConstDistr(self.U), self.d)
-        diracB = Z.get_piecewise_pdf().segments.pop(-1)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        self.piecewise_pdf = _conditional_pdf(self.d, U=self.U)
     def __str__(self):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
@@ -1297,15 +1296,7 @@ class CondBetweenDistr(Distr):
         self.d = d
         super(CondBetweenDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        #Z = MaxDistr(ConstDistr(self.L), self.d)
-        #Z = MinDistr(Z, ConstDistr(self.U))
-        #Z = min(max(self.d, self.L), self.U)
-        Z = max(min(self.d, self.U), self.L)
-        diracL = Z.get_piecewise_pdf().segments.pop(0)
-        diracU = Z.get_piecewise_pdf().segments.pop(-1)
-        pmass = 1. - (diracL.f + diracU.f)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1./pmass])).get_piecewise_pdf()
-
+        self.piecewise_pdf = _conditional_pdf(self.d, L=self.L, U=self.U)
     def __str__(self):
         return "{0} | {1}<X<{2}".format(self.d, self.L, self.U)
     def getName(self):
-- 
2.43.0


From 188f582930d718223aa4e5a292c06bab799df573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 34/82] fix: sampling conditional laws failed or left the law
 for atoms, intervals and single samples

---
 pacal/distr.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 134f027..837514e 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1251,6 +1251,16 @@ def _conditional_pdf(d, L=-numpy.inf, U=numpy.inf):
             pdf.addSegment(seg)
     return pdf * (1.0 / pdf.integrate())
 
+def _conditional_rand(d, n, L=-numpy.inf, U=numpy.inf):
+    """Random numbers from d under the condition L < d < U, by rejection."""
+    if n is None:
+        return _conditional_rand(d, 1, L, U)[0]
+    tab = array([])
+    while len(tab) < n:
+        x = d.rand(n)
+        tab = concatenate((tab, x[(L < x) & (x < U)]))
+    return tab[0:n]
+
 class CondGtDistr(Distr):
     def __init__(self, d, L=None, **kwargs):
         self.L = L
@@ -1262,14 +1272,8 @@ class CondGtDistr(Distr):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
         return "{0} | X>{1}".format(self.d.getName(), self.L)
-    def rand_raw(self, n):
-        tab=array([])
-        k=0
-        while k<n:
-            x =self.d.rand(n)
-            tab = concatenate((tab,x[x>self.L]))
-            k = len(tab)
-        return tab[0:n] #self.rand_invcdf(n)
+    def rand_raw(self, n = None):
+        return _conditional_rand(self.d, n, L=self.L)
     def range(self):
         return self.L, self.d.range()[1]
 
@@ -1284,8 +1288,8 @@ class CondLtDistr(Distr):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
         return "{0} | X<{1}".format(self.d.getName(), self.U)
-    def rand_raw(self, n):
-        return self.rand_invcdf(n)
+    def rand_raw(self, n = None):
+        return _conditional_rand(self.d, n, U=self.U)
     def range(self):
         return self.d.range()[0], self.U
 
@@ -1301,8 +1305,8 @@ class CondBetweenDistr(Distr):
         return "{0} | {1}<X<{2}".format(self.d, self.L, self.U)
     def getName(self):
         return "{0} | {1}<X<{2}".format(self.d.getName(), self.L, self.U)
-    def rand_raw(self, n):
-        return self.rand_invcdf(n)
+    def rand_raw(self, n = None):
+        return _conditional_rand(self.d, n, L=self.L, U=self.U)
     def range(self):
         return self.L, self.U
 
-- 
2.43.0


From fd6931187e0e1835560943f6d6e2f458e35da4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 35/82] fix: ranges, equations and names of expressions: ranges
 of functions, extremes and discrete laws were (0,1), equations of functions
 were missing, repeated or nested differences lost

---
 pacal/distr.py          | 59 +++++++++++++++++++++++++++++------------
 pacal/rv.py             | 50 +++++++++++++++++++++++++++++-----
 pacal/standard_distr.py |  8 ++++++
 3 files changed, 94 insertions(+), 23 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 837514e..c34b427 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -9,6 +9,7 @@ from functools import partial
 
 import numpy
 import numpy as np
+import sympy
 from numpy import array, zeros_like, ones_like, unique, concatenate, isscalar, isfinite
 from numpy import sqrt, pi, arctan, tan, asarray, zeros
 #from numpy import sin, cos, tan,
@@ -29,6 +30,7 @@ from . import params
 from pacal.indeparith import conv, convprod, convdiv, convmin, convmax
 from pacal.segments import PiecewiseFunction, PiecewiseDistribution, DiracSegment, ConstSegment
 from pacal.rv import *
+from pacal.rv import _monotone_range, _abs_range, _square_range
 
 
 def _mgf_fun(distr, t):
@@ -567,6 +569,8 @@ class FuncDistr(FuncRV, OpDistr):
 #        self.f_inv = f_inv
 #        self.f_inv_deriv = f_inv_deriv
 
+    def range(self):
+        return _monotone_range(self.f, self.d)
     # functions need to be implemented directly (not passed to constructor)
     def f(self, x):
         pass
@@ -611,7 +615,7 @@ class ExpDistr(FuncDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpDistr, self).__init__(d, pole_at_zero = True,
-                                       fname = "exp")
+                                       fname = "exp", sym = sympy.exp(d.getSymname()))
     def f(self, x):
         return numpy.exp(x)
     def f_inv(self, x):
@@ -633,7 +637,8 @@ class LogDistr(FuncDistr):
     def __init__(self, d):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
-        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log")
+        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log",
+                                       sym = sympy.log(d.getSymname()))
     def f(self, x):
         return numpy.log(x)
     def f_inv(self, x):
@@ -662,7 +667,8 @@ def sign(d):
 class AtanDistr(FuncDistr):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
-        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan")
+        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan",
+                                        sym = sympy.atan(d.getSymname()))
 
     def f(self, x):
         return numpy.arctan(x)
@@ -700,7 +706,8 @@ def atan(d):
 class TanhDistr(FuncDistr):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
-        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh",
+                                        sym = sympy.tanh(d.getSymname()))
 
     def f(self, x):
         return numpy.tanh(x)
@@ -739,7 +746,8 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid",
+                                           sym = 1 / (1 + sympy.exp(-d.getSymname())))
 
     def f(self, x):
         if isscalar(x):
@@ -896,7 +904,8 @@ class PowDistr(PowRV, OpDistr):
 class AbsDistr(OpDistr):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsDistr, self).__init__([d])
+        super(AbsDistr, self).__init__([d], sym = sympy.Abs(d.getSymname()))
+        self.a, self.b = _abs_range(d)
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
@@ -921,7 +930,8 @@ class AbsDistr(OpDistr):
 class SquareDistr(OpDistr):
     """Injective function of random variable"""
     def __init__(self, d):
-        super(SquareDistr, self).__init__([d])
+        super(SquareDistr, self).__init__([d], sym = d.getSymname()**2)
+        self.a, self.b = _square_range(d)
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
@@ -952,12 +962,12 @@ def sqrt(d):
             raise ValueError("logarithm of a nonpositive distribution")
         return d ** 0.5
     if isinstance(d, RV):
-        return PowRV(d, 0.5)
+        return d ** 0.5
     return numpy.sqrt(d)
 
 class FuncNoninjectiveDistr(OpDistr):
     """Non-injective function of random variable only piecewise smooth functions are permitted"""
-    def __init__(self, d, fname="f"):
+    def __init__(self, d, fname="f", sym = None):
 # ====================================
 #        self.intervals = []
 #        self.fs = []
@@ -967,7 +977,7 @@ class FuncNoninjectiveDistr(OpDistr):
 # ====================================
         self.fname = fname
         self.d = d
-        super(FuncNoninjectiveDistr, self).__init__([d])
+        super(FuncNoninjectiveDistr, self).__init__([d], sym = sym)
     def pdf(self, x):
         return self.get_piecewise_pdf()(x)
 #    def pdf(self, x):
@@ -1002,7 +1012,8 @@ class Sq2Distr(FuncNoninjectiveDistr):
         self.f_invs = [lambda x: -x**0.5,lambda x: x**0.5]
         self.f_inv_derivs = [lambda x: -0.5*x**(-0.5),lambda x: 0.5*x**(-0.5)]
         self.pole_at_zero = True
-        super(Sq2Distr, self).__init__(d, fname = "sin")
+        super(Sq2Distr, self).__init__(d, fname = "sqr", sym = d.getSymname()**2)
+        self.a, self.b = _square_range(d)
     def is_nonneg(self):
         return True
 
@@ -1020,7 +1031,8 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arcsin, _pi_m_arcsin]
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
-        super(SinDistr, self).__init__(d, fname = "sin")
+        super(SinDistr, self).__init__(d, fname = "sin", sym = sympy.sin(d.getSymname()))
+        self.a, self.b = -1.0, 1.0
     def is_nonneg(self):
         return False
 def sin(d):
@@ -1043,7 +1055,8 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arccos, _twopi_m_arccos]
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
-        super(CosDistr, self).__init__(d, fname = "cos")
+        super(CosDistr, self).__init__(d, fname = "cos", sym = sympy.cos(d.getSymname()))
+        self.a, self.b = -1.0, 1.0
     def is_nonneg(self):
         return False
 def cos(d):
@@ -1055,7 +1068,13 @@ def cos(d):
 class TanDistr(FuncDistr):
     """Tangent of a random variable"""
     def __init__(self, d):
-        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
+        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan",
+                                       sym = sympy.tan(d.getSymname()))
+    def range(self):
+        a, b = self.d.range()
+        if -pi/2 < a and b < pi/2:
+            return _monotone_range(self.f, self.d)
+        return -Inf, Inf
     def f(self, x):
         return numpy.tan(x)
     def f_inv(self, x):
@@ -1081,6 +1100,8 @@ class DiscreteDistr(Distr):
         self.xi = [p[0] for p in px]
         self.pi = [p[1] for p in px]
         self.cumP = cumsum(self.pi)
+        if len(self.xi) > 0:
+            self.a, self.b = self.xi[0], self.xi[-1]
     def pdf(self, x):
         """it override pdf() method to obtain discrete probabilities"""
         x = asarray(x)
@@ -1120,6 +1141,7 @@ class SignDistr(DiscreteDistr):
             xi = [-1,1]; pi=[prMinus, prPlus]
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
+        self.sym = sympy.sign(d.getSymname())
     def __str__(self):
         return "sign({0})".format(id(self.d))
     def getName(self):
@@ -1275,7 +1297,8 @@ class CondGtDistr(Distr):
     def rand_raw(self, n = None):
         return _conditional_rand(self.d, n, L=self.L)
     def range(self):
-        return self.L, self.d.range()[1]
+        a, b = self.d.range()
+        return max(a, self.L), b
 
 class CondLtDistr(Distr):
     def __init__(self, d, U=None, **kwargs):
@@ -1291,7 +1314,8 @@ class CondLtDistr(Distr):
     def rand_raw(self, n = None):
         return _conditional_rand(self.d, n, U=self.U)
     def range(self):
-        return self.d.range()[0], self.U
+        a, b = self.d.range()
+        return a, min(b, self.U)
 
 class CondBetweenDistr(Distr):
     def __init__(self, d, L=None, U=None, **kwargs):
@@ -1308,7 +1332,8 @@ class CondBetweenDistr(Distr):
     def rand_raw(self, n = None):
         return _conditional_rand(self.d, n, L=self.L, U=self.U)
     def range(self):
-        return self.L, self.U
+        a, b = self.d.range()
+        return max(a, self.L), min(b, self.U)
 
 class Condition(object):
     pass
diff --git a/pacal/rv.py b/pacal/rv.py
index fd6c1ac..2bec198 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -25,7 +25,7 @@ class RV(object):
                 self.sym = sym      # user defined symbolic name of r.v.
         else:
             self.sym = sympy.Symbol("X{0}".format(self.id())) # default symbolic name of r.v.
-        if self.sym.is_Atom:
+        if self.sym.is_Atom and len(parents) == 0:
             #print "atom: ", self.sym
             self.symname = self.sym
         else:
@@ -58,6 +58,8 @@ class RV(object):
 
     def range(self):
         return self.a, self.b
+    def is_nonneg(self):
+        return self.range()[0] >= 0
 
     def getName(self):
         """return, string representation of RV"""
@@ -91,7 +93,7 @@ class RV(object):
         if node is None:
             node = self
         p = node.parents
-        if not node.getSym().is_Atom and not node.getSym() in set(l):
+        if node.isLinked() and not node.getSymname() in set(r):
             l.append(node.getSym())
             r.append(node.getSymname())
         if p is None or len(p)==0:
@@ -161,7 +163,7 @@ class RV(object):
     def getParentsAll(self):
         l = set([self])
         for p in self.parents:
-            l.update(p.getParentsDep())
+            l.update(p.getParentsAll())
         return l
     def getParentsFree(self):
         l = set()
@@ -302,6 +304,28 @@ def _wrapped_name(d, incl_classes = None):
     return d_name
 
 
+def _monotone_range(f, d):
+    """Range of a monotone function of d."""
+    with numpy.errstate(all = "ignore"):
+        a, b = [float(f(float(x))) for x in d.range()]
+    return min(a, b), max(a, b)
+def _inv_range(d):
+    a, b = d.range()
+    if a < 0 < b:
+        return -numpy.inf, numpy.inf
+    # a zero end is approached from inside of the range
+    inv_a = 1.0 / a if a != 0 else numpy.inf
+    inv_b = 1.0 / b if b != 0 else -numpy.inf
+    return min(inv_a, inv_b), max(inv_a, inv_b)
+def _abs_range(d):
+    a, b = d.range()
+    if a <= 0 <= b:
+        return 0.0, max(-a, b)
+    return min(abs(a), abs(b)), max(abs(a), abs(b))
+def _square_range(d):
+    a, b = _abs_range(d)
+    return a * a, b * b
+
 class OpRV(RV):
     """Base class for operations on RVs."""
     def __str__(self):
@@ -363,6 +387,7 @@ class ExpRV(FuncRV):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpRV, self).__init__(d, fname = "exp", sym = sympy.exp(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.exp, d)
     def is_nonneg(self):
         return True
 class LogRV(FuncRV):
@@ -371,21 +396,25 @@ class LogRV(FuncRV):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
         super(LogRV, self).__init__(d, fname = "log", sym = sympy.log(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.log, d)
 
 class AtanRV(FuncRV):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
         super(AtanRV, self).__init__(d, fname ="atan", sym = sympy.atan(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.arctan, d)
 
 class TanhRV(FuncRV):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
         super(TanhRV, self).__init__(d, fname ="tanh", sym = sympy.tanh(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.tanh, d)
 
 class InvRV(OpRV):
     """Inverse of random variable."""
     def __init__(self, d):
         super(InvRV, self).__init__([d], sym = 1 / d.getSymname())
+        self.a, self.b = _inv_range(d)
         self.d = d
     def __str__(self):
         return "1/#{0}".format(self.d.id())
@@ -412,6 +441,7 @@ class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
         super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
+        self.a, self.b = _abs_range(d)
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
@@ -422,6 +452,7 @@ class SignRV(RV):
     def __init__(self, d):
         self.d = d
         super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.sign, d)
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
@@ -431,6 +462,7 @@ class SquareRV(OpRV):
     """Injective function of random variable"""
     def __init__(self, d):
         super(SquareRV, self).__init__([d], sym = d.getSymname()**2)
+        self.a, self.b = _square_range(d)
         self.d = d
     def __str__(self):
         return "#{0}**2".format(self.d.id())
@@ -469,7 +501,7 @@ class SubRV(OpRV):
     def __str__(self):
         return "#{0}-#{1}".format(self.d1.id(), self.d2.id())
     def getName(self):
-        n2 = _wrapped_name(self.d2, incl_classes = [SumRV])
+        n2 = _wrapped_name(self.d2, incl_classes = [SumRV, SubRV, ShiftedScaledRV])
         return "{0}-{1}".format(self.d1.getName(), n2)
     def getOperation(self):
         return "-"
@@ -524,9 +556,12 @@ class DivRV(OpRV):
 class MinRV(OpRV):
     def __init__(self, d1, d2):
         super(MinRV, self).__init__([d1, d2], sym = sympy_min(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = min(a1, a2), min(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         #return "min(#{0}, #{1})".format(self.d1.id(), self.d2.id())
         return "min({0},{1})".format(self.d1, self.d2)
     def getName(self):
@@ -537,9 +572,12 @@ class MinRV(OpRV):
 class MaxRV(OpRV):
     def __init__(self, d1, d2):
         super(MaxRV, self).__init__([d1, d2], sym = sympy_max(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = max(a1, a2), max(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         return "max(#{0}, #{1})".format(self.d1.id(), self.d2.id())
     def getName(self):
         return "max({0}, {1})".format(self.d1.getName(), self.d2.getName())
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 4629fb9..0f517e2 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -52,6 +52,8 @@ class PDistr(Distr):
     def __init__(self, segs = None, **kvargs):
         super(PDistr, self).__init__(**kvargs)
         self.segs = segs
+    def range(self):
+        return self.get_piecewise_pdf().range()
     def init_piecewise_pdf(self):
         if isinstance(self.segs, PiecewiseFunction):
             self.piecewise_pdf = self.segs
@@ -93,6 +95,9 @@ class MixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
+    def range(self):
+        rs = [d.range() for d in self.distrs]
+        return min(r[0] for r in rs), max(r[1] for r in rs)
     def rand_raw(self, n = None):
         if n is None:
             return self.rand_raw(1)[0]
@@ -134,6 +139,9 @@ class ExtremeMixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
+    def range(self):
+        rs = [d.range() for d in self.distrs]
+        return min(r[0] for r in rs), max(r[1] for r in rs)
 
     #def pdf(self, x):
     #    return self.fun(x)
-- 
2.43.0


From 92870fb98b3f2ccb112932fdfe752697ea194c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 36/82] fix: a discrete law with repeated points lost the
 masses of the repetitions

---
 pacal/distr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index c34b427..b9a8dd4 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1094,8 +1094,12 @@ class DiscreteDistr(Distr):
     def __init__(self, xi=[0.0, 1.0], pi=[0.5, 0.5]):
         super(DiscreteDistr, self).__init__([])
         assert(len(xi) == len(pi))
-        px = list(zip(xi, pi))
-        px.sort()
+        px = []
+        for x, p in sorted(zip(xi, pi)):
+            if px and px[-1][0] == x:
+                px[-1] = (x, px[-1][1] + p)
+            else:
+                px.append((x, p))
         self.px = px
         self.xi = [p[0] for p in px]
         self.pi = [p[1] for p in px]
-- 
2.43.0


From 8dcf48c64269bb83540bbd62058d531bc5f131cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 37/82] fix: Poisson weights never ended for some rates,
 binomial weights failed for p=1, mixtures of extremes could not be sampled

---
 pacal/standard_distr.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 0f517e2..91b472e 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -95,9 +95,6 @@ class MixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
-    def range(self):
-        rs = [d.range() for d in self.distrs]
-        return min(r[0] for r in rs), max(r[1] for r in rs)
     def rand_raw(self, n = None):
         if n is None:
             return self.rand_raw(1)[0]
@@ -139,6 +136,8 @@ class ExtremeMixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
+    def rand_raw(self, n = None):
+        return self.rand_invcdf(n)
     def range(self):
         rs = [d.range() for d in self.distrs]
         return min(r[0] for r in rs), max(r[1] for r in rs)
@@ -961,7 +960,8 @@ class PoissonDistr(DiscreteDistr):
         P = 1.0 * exp(-lmbda)
         k = 0.0
         S = P
-        while (1.0-S) >= trunk_eps:
+        # 1-S may stay above trunk_eps because of rounding
+        while (1.0-S) >= trunk_eps and (k <= 2 * lmbda or P > 0.5 * trunk_eps):
             xi.append(k)
             pi.append(P)
             k += 1.0
@@ -983,16 +983,21 @@ class BinomialDistr(DiscreteDistr):
         self.n = n
         self.p = p
         self.q = 1-p
-        P = self.q ** n
-        xi = [0]
+        # start from the end where the weights are not small
+        p, q = self.p, self.q
+        if p > q:
+            p, q = q, p
+        P = q ** n
         pi = [P]
-        pq = self.p / self.q
+        pq = p / q
         for i in range(n):
             P *= n - i
             P /= i + 1
             P *= pq
-            xi.append(i+1)
             pi.append(P)
+        if self.p > self.q:
+            pi.reverse()
+        xi = list(range(n + 1))
         super(BinomialDistr, self).__init__(xi, pi, **kwargs)
     def __str__(self):
         return "Binomial({0}.{1})#{2}".format(self.n, self.p, self.id())
-- 
2.43.0


From a6ea4eff8f213d313ebcbbad3ecb83731884a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 38/82] fix: iid_op did not restore the warning setting after
 an error, iid_unknown lost accuracy by interpolating a function with a jump
 at its end

---
 pacal/stats/iid_ops.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d3d1423..d749631 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -34,11 +34,13 @@ def _int_exp_all(x, n, op = operator.mul):
 def iid_op(X, n, op, all = False):
     old_warn = params.general.warn_on_dependent
     params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all(X, n, op)
-    else:
-        y = _int_exp(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    try:
+        if all:
+            y = _int_exp_all(X, n, op)
+        else:
+            y = _int_exp(X, n, op)
+    finally:
+        params.general.warn_on_dependent = old_warn
     return y
 def iid_sum(X, n, all = False):
     return iid_op(X, n, op = operator.add, all = all)
@@ -63,7 +65,8 @@ def iid_unknown(X, n, k, **kwargs):
     for i in range(k, n+1):
         fun += iid_order_stat(X, n, i).get_piecewise_pdf()
     fun2 = (1.0 / (1+n-k)) * fun
-    return FunDistr(fun = fun2.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
+    # the terms are interpolated already and vanish at the right end of the range
+    return FunDistr(fun = fun2, breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
 
 
 def iid_median(X, n):
@@ -101,11 +104,13 @@ def _int_exp_all2(x, n, op = operator.mul):
 def iid_op2(X, n, op, all = False):
     old_warn = params.general.warn_on_dependent
     params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all2(X, n, op)
-    else:
-        y = _int_exp2(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    try:
+        if all:
+            y = _int_exp_all2(X, n, op)
+        else:
+            y = _int_exp2(X, n, op)
+    finally:
+        params.general.warn_on_dependent = old_warn
     return y
 #def _lambda_average(n1, x1, n2, x2):
 #    n = float(n1 + n2)
-- 
2.43.0


From 1d0c2a2b5952cb7e37e21e68845511842455d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 39/82] fix: iid_average_geom with all=True took the n-th root
 of every partial product

---
 pacal/stats/iid_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d749631..2fa3641 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -132,7 +132,7 @@ def iid_average(X, n, all = False):
 def iid_average_geom(X, n, all = False):
     #return iid_op2(X, n, op = _lambda_average_geom, all = all)
     if all:
-        return [x**(1.0/n) for x in iid_prod(X, n, all=True)]
+        return [x**(1.0/(i + 1)) for i, x in enumerate(iid_prod(X, n, all=True))]
     return iid_prod(X, n)**(1.0/n)
 
 
-- 
2.43.0


From 622e2705b639f71f12c06c4416ec8a835f396099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 40/82] fix: the inverse of a distribution function failed for
 laws whose quantile function has one piece

---
 pacal/segments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 94ea723..54890ad 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1888,6 +1888,9 @@ class PiecewiseFunction(object):
         if include_zero_break:
             if 0 not in breakvals:
                 breakvals = numpy.insert(breakvals, numpy.searchsorted(breakvals, 0), 0)
+        if use_end_poles and len(breakvals) == 2:
+            # a segment has a pole at one of its ends only
+            breakvals = array([breakvals[0], 0.5 * (breakvals[0] + breakvals[1]), breakvals[1]])
         for i in breakvals:
             lpoles.append(False)
             rpoles.append(False)
-- 
2.43.0


From 5c15467760eb5ae706de0dc84a1571438321971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 41/82] fix: samples of the sign of a variable ignored its
 argument, function laws could not sample a single value

---
 pacal/distr.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index b9a8dd4..b00c163 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -996,10 +996,13 @@ class FuncNoninjectiveDistr(OpDistr):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
         X = self.d.rand(n, cache)
-        Y = zeros_like(X, dtype=float)
+        x = numpy.atleast_1d(X)
+        Y = zeros_like(x, dtype=float)
         for i in range(len(self.intervals)):
-            mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
-            Y[mask] = self.fs[i](X[mask])
+            mask = (self.intervals[i][0] <= x) * (x <= self.intervals[i][1])
+            Y[mask] = self.fs[i](x[mask])
+        if isscalar(X):
+            return Y[0]
         return Y
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyCompositionNoninjective(self.intervals, self.fs, self.f_invs, self.f_inv_derivs, pole_at_zero=self.pole_at_zero)
@@ -1146,6 +1149,10 @@ class SignDistr(DiscreteDistr):
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
         self.sym = sympy.sign(d.getSymname())
+    # samples follow those of the argument
+    rand = OpDistr.rand
+    def rand_op(self, n, cache):
+        return numpy.sign(self.d.rand(n, cache))
     def __str__(self):
         return "sign({0})".format(id(self.d))
     def getName(self):
-- 
2.43.0


From 656bf44bfe3c515889c3670ae722d9a7e45cd166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 42/82] fix: chi-square laws with less than one degree of
 freedom had no density, beta density was nan at the ends for parameters equal
 to one

---
 pacal/standard_distr.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 91b472e..7b747e4 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -290,19 +290,16 @@ class ChiSquareDistr(Distr):
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
-        if 1 <= self.df <= 20:
+        if self.df <= 20:
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                    breakPoints = [0.0, self.df/2.0, self.df*2.0, np.inf],
                                                    lpoles=[True, False, False, False])
-        elif 20 < self.df:
+        else:
             mean = self.df
             std = sqrt(2 * self.df)
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                         breakPoints =[0.0, self.df*0.75, self.df*4.0/3.0,  np.inf],
                                                         lpoles=[True, False, False, False])
-
-        else:
-            print("unexeepted df=", self.df)
         #if self.df == 1 or self.df == 3:
         #    self.piecewise_pdf.addSegment(SegmentWithPole(0, 1, self.pdf, left_pole = True))
         #else:
@@ -423,16 +420,34 @@ class BetaDistr(Distr):
         self.alpha = alpha
         self.beta = beta
         self.lg_norm = lgamma(self.alpha + self.beta) - lgamma(self.alpha) - lgamma(self.beta)
+        if self.alpha < 1:
+            self.pdf_at_0 = np.inf
+        elif self.alpha == 1:
+            self.pdf_at_0 = self.beta
+        else:
+            self.pdf_at_0 = 0
+        if self.beta < 1:
+            self.pdf_at_1 = np.inf
+        elif self.beta == 1:
+            self.pdf_at_1 = self.alpha
+        else:
+            self.pdf_at_1 = 0
     def pdf(self, x):
         if isscalar(x):
             if x < 0 or x > 1:
                 y = 0
+            elif x == 0:
+                y = self.pdf_at_0
+            elif x == 1:
+                y = self.pdf_at_1
             else:
                 y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
         else:
             y = zeros_like(x, dtype=float)
-            mask = (x >= 0) & (x <= 1)
+            mask = (x > 0) & (x < 1)
             y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
+            y[x == 0] = self.pdf_at_0
+            y[x == 1] = self.pdf_at_1
         return y
     def init_piecewise_pdf(self):
         if self.alpha > 1 and self.beta > 1:
-- 
2.43.0


From a74939af9a2fc4024234fe4c88b93174df3191c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:53 +0000
Subject: [PATCH 43/82] fix: integration over infinite intervals around zero
 lost the integral, debug_plot was called as a flag

---
 pacal/integration.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index fc6d34d..140177f 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -28,7 +28,7 @@ from .utils import cheb_nodes, incremental_cheb_nodes
 from .utils import combine_interpolation_nodes_fast
 from .utils import combine_interpolation_nodes_fast_vector
 from .utils import convergence_monitor
-from .utils import debug_plot
+from .utils import debug_plot as _debug_plot
 
 from .vartransforms import VarTransformAlgebraic_PMInf
 from .vartransforms import VarTransformAlgebraic_PInf
@@ -89,7 +89,7 @@ def fejer2_coefficients(n):
 
 
 def integrate_clenshaw(f, a, b, maxn = 2**16, tol = 10e-16,
-                       debug_info = True, debug_plot = True):
+                       debug_info = False, debug_plot = False):
     n = 3
     prevI = None
     nodes = None
@@ -116,7 +116,7 @@ def integrate_clenshaw(f, a, b, maxn = 2**16, tol = 10e-16,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        _debug_plot(a, b, nodes, fs, coeffs)
     return I, err
 
 def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
@@ -156,7 +156,7 @@ def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        _debug_plot(a, b, nodes, fs, coeffs)
     # return currently best result
     I, err, _extra = cm.get_best_result()
     return I, err
@@ -263,6 +263,14 @@ def integrate_fejer2_Xn_transformN(f, a, b, N = None, *args, **kwargs):
     return integrate_fejer2(lambda t: N * (b-a) * f(b-t**N*(b-a)) * t**(N-1), 0.0, 1.0, *args, **kwargs)
 def integrate_wide_interval(f, a, b, *args, **kwargs):
     wide_cond = params.integration.wide_condition
+    if isinf(a) and isinf(b):
+        i1, e1 = integrate_fejer2_minf(f, 0.0, None, None, *args, **kwargs)
+        i2, e2 = integrate_fejer2_pinf(f, 0.0, None, None, *args, **kwargs)
+        return i1 + i2, e1 + e2
+    if isinf(b) and a <= 0:
+        return integrate_fejer2_pinf(f, a, None, None, *args, **kwargs)
+    if isinf(a) and b >= 0:
+        return integrate_fejer2_minf(f, b, None, None, *args, **kwargs)
     if isinf(b):
         b=1e100
     if isinf(a):
-- 
2.43.0


From 905a8c7df67d13eeba2432d0a76bda631933e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 44/82] fix: findinv_pinf looked for the level of a decreasing
 function in the wrong direction

---
 pacal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index ffa5d57..20d320c 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -434,7 +434,7 @@ def findinv_pinf(fun, a = 0.0, c=0.5, increasing=True, **kwargs):
     fb = fun(b)
     if not s*(fun(a) - c) <= 0:  # assume fun decreasing
         return nan
-    while isfinite(b) and fb < c:
+    while isfinite(b) and s*(fb - c) < 0:
         d = (b - a) * 1.2
         fa = fb
         a, b = b, b+d
-- 
2.43.0


From ffc17c756a90666668cbfa099830b004f7151e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 45/82] fix: bisection lost the root of a function with tiny
 values

---
 pacal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 20d320c..01882d2 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -449,7 +449,7 @@ def bisect(f, xa, xb, xtol = 10*finfo(double).eps, rtol = 2*finfo(double).eps, m
     tol = min(xtol, rtol*(abs(xa) + abs(xb))) # fix for long intervals
     fa = f(xa, *args)
     fb = f(xb, *args)
-    if fa*fb > 0: raise RuntimeError("Interval does not contain zero")
+    if fa > 0 and fb > 0 or fa < 0 and fb < 0: raise RuntimeError("Interval does not contain zero")
     if fa == 0: return xa
     if fb == 0: return xb
 
@@ -458,7 +458,7 @@ def bisect(f, xa, xb, xtol = 10*finfo(double).eps, rtol = 2*finfo(double).eps, m
         dm /= 2
         xm = xa + dm
         fm = f(xm, *args)
-        if fm*fa >= 0:
+        if (fm > 0) == (fa > 0):
             xa = xm
         if fm == 0 or abs(dm) < tol:
             return xm
-- 
2.43.0


From 83d3937d218d52d57da8c4208a893017bca291b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 46/82] fix: step function of an array failed and ignored the
 shift

---
 pacal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 01882d2..1a657a0 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -384,8 +384,8 @@ def stepfun(x, shift = 0.0):
         else:
             return 1.0
     else:
-        mask = (x >= 0.0)
-        y = zeros_like(x, dtype=float)
+        mask = (x >= shift)
+        y = np.zeros_like(x, dtype=float)
         y[mask] = 1.0
         return y
 
-- 
2.43.0


From 50eafc30c50e8e326e37008be642fdecbe07df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:55 +0000
Subject: [PATCH 47/82] fix: the tail exponent was estimated from subnormal
 values

---
 pacal/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 1a657a0..8ad2bf3 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -476,7 +476,7 @@ def estimateTailExponent(f, fromTo = None, N =300, deriv = False, debug_plot = F
         lx = -ex
         xi = -log(ex)
     y = abs(f(lx))
-    ind = (y > 0)
+    ind = (y >= finfo(double).tiny)  # numbers below have few digits
     xi = xi[ind]
     yi = log(y[ind])
     ri = yi[1:] - yi[0:-1]
-- 
2.43.0


From 3e2b9a424bd3e31efffe3aa5fd0402324273097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 48/82] fix: M and W copulas of numbers, of more than two and
 of integer arguments

---
 pacal/depvars/copulas.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 0dcd81e..ee1f39d 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -296,9 +296,9 @@ class PiCopula(Copula):
     def cpdf(self, *X):
         return ones_like(X[0])
     def ccdf(self, *X):
-        pi = ones_like(X[0])
+        pi = ones_like(X[0], dtype=float)
         for xi in X:
-            pi *= xi
+            pi = pi * xi
         return pi
 class MCopula(Copula):
     def __init__(self, marginals=None):
@@ -307,14 +307,9 @@ class MCopula(Copula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        mi = zeros_like(X[0])+1
-        for xi in X[0:]:
-            xia = array(xi)
-            ind = xia < mi
-            if isscalar(mi) | size(mi)==1:
-                mi = xia
-            else:
-                mi[ind] = xia[ind]
+        mi = ones_like(X[0], dtype=float)
+        for xi in X:
+            mi = np.minimum(mi, xi)
         return mi
     def _segmin(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
@@ -382,17 +377,10 @@ class WCopula(MCopula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        si = zeros_like(X[0])
-        for xi in X[0:]:
-            si += array(xi)
-        si = si - 1
-        ind = (si < 0)
-        if isscalar(si) | size(si)==1:
-            if ind:
-                si = 0.0
-        else:
-            si[ind] = 0
-        return si
+        si = zeros_like(X[0], dtype=float)
+        for xi in X:
+            si = si + xi
+        return np.maximum(si - (len(X) - 1), 0.0)
     def _segmax(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         #xopt = fminbound(fun, L, U, xtol = 1e-16)
-- 
2.43.0


From 286de933c6bb17dfb4e1d0769c9e765ae1176446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 49/82] fix: Archimedean copulas of numbers, with a finite
 generator at zero and with default arguments

---
 pacal/depvars/copulas.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index ee1f39d..a688419 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -396,10 +396,12 @@ class WCopula(MCopula):
 
 class ArchimedeanCopula(Copula):
     # TODO
-    def __init__(self, fi=log, fi_deriv=lambda s: 1 / s,
-                 fi_inv=exp, fi_inv_nth_deriv=exp,
+    def __init__(self, fi=lambda t: -log(t), fi_deriv=lambda t: -1 / t,
+                 fi_inv=lambda s: exp(-s), fi_inv_nth_deriv=None,
                  marginals=None):
         super(ArchimedeanCopula, self).__init__(marginals)
+        if fi_inv_nth_deriv is None: # the default generator: independence
+            fi_inv_nth_deriv = lambda s: (-1) ** len(self.marginals) * exp(-s)
         #self.theta = Symbol('theta')
         self.fi = fi
         self.fi_deriv = fi_deriv
@@ -428,28 +430,28 @@ class ArchimedeanCopula(Copula):
 
     def cpdf(self, *X):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
+        X = [np.asarray(xi, dtype=float) for xi in X]
         si = zeros_like(X[0])
         for xi in X:
             si = si + self.fi(xi)
-        si = self.fi_inv_nth_deriv(si)
         pi = ones_like(X[0])
         for xi in X:
             pi = pi * self.fi_deriv(xi)
-        return si * pi
+        # beyond fi(0) the pseudo-inverse is zero
+        return np.where(si >= self.fi(np.float64(0)), 0.0, self.fi_inv_nth_deriv(si) * pi)
     def ccdf(self, *X):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
+        X = [np.asarray(xi, dtype=float) for xi in X]
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
-        ind = (si < 0) # or isnan(si)
-        #if len(ind)>0:
-        si[ind] = 0.0
-        si = self.fi_inv(si)
-        return si
+            si = si + self.fi(xi)
+        si = np.where(si < 0, 0.0, si)
+        # beyond fi(0) the pseudo-inverse is zero
+        return np.where(si >= self.fi(np.float64(0)), 0.0, self.fi_inv(si))
 class ArchimedeanSymbolicCopula(ArchimedeanCopula):
     # TODO
     def __init__(self,
-                 fi=lambda t, theta: log(t),
+                 fi=lambda t, theta: -sympy.log(t),
                  fi_inv=None, #lambda t, theta:(-sympy.log(t)) ** theta,
                  theta=2,
                  marginals=None):
@@ -476,7 +478,7 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         si = 0
         for i in range(self.d):
             si += self.fi_(vars[i], self.theta)
-        self.sym_C = self.fi_inv_(si, self.theta)
+        self.sym_C = self.sym_fi_inv.subs(self.s, si)
 
     def eliminate(self, var):
         var, c_var = self.prepare_var(var)
-- 
2.43.0


From 86796752a7adfe0df560cd81d8e658787b5f8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 50/82] fix: dual of a copula ignored the marginal distribution
 functions

---
 pacal/depvars/copulas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index a688419..449fec0 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -78,10 +78,10 @@ class Copula(NDDistr):
             return self.ccdf(*F)
 
     def dualcdf(self, *X):
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for i in range(len(X)):
-            si += self.marginals[i].get_piecewise_cdf_interp()(X[i])
-        return si - self.ccdf(*X)
+            si = si + self.marginals[i].get_piecewise_cdf_interp()(X[i])
+        return si - self.cdf(*X)
     def jpdf_(self, f, g, x, y):
         """joint probability density function with marginals *X"""
         if isinstance(f, Distr):
-- 
2.43.0


From fd594e480290c8388e103f90a3b29a52dd6288f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 51/82] fix: covariance, correlation and tau of a pair took the
 margin of another variable

---
 pacal/depvars/copulas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 449fec0..11970da 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -196,7 +196,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             fmean = f.mean()
             gmean = g.mean()
             f0, f1 = f.get_piecewise_pdf().range()
@@ -217,7 +217,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             return self.cov(i, j)/f.std()/g.std()
         else:
             c = zeros((self.d, self.d))
@@ -231,7 +231,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
             if i == j:
-- 
2.43.0


From 4f146b499c68379489cdcfae7569858fd229dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 52/82] fix: conditional copulas failed for arrays, mixed up
 variables and were cut to the ranges of the margins

---
 pacal/depvars/copulas.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 11970da..bfcb47b 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -509,6 +509,7 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         f(c_var) = Pr(c_var | var=X)
         """
         var, c_var = self.prepare_var(var)
+        X = [X[k] for k in np.argsort(var)]
         num = self.pdf
         den = self.eliminate(c_var)
         def fun_(*Y_):
@@ -529,39 +530,29 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         """It returns conditional cdf for given copula
         f(c_var) = Pr(Y<c_var | var=X)
         """
-        funcond = self.ccond(var)
+        funcond = self.ccond(var).fun # on the unit cube
         var, c_var = self.prepare_var(var)
-        new_cond = var
+        X = [X[k] for k in np.argsort(var)]
         def fun_(*Y_):
             j, k = 0, 0
             Y = []
-            dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 if i in set(var):
                     Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
                     j += 1
                 else:
                     Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
-                    dF *= self.marginals[i].get_piecewise_pdf()(Y_[k])
                     k += 1
             return funcond(*Y)
-        return NDFun(len(new_cond), [self.Vars[i] for i in c_var], fun_)
+        return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def condfun(self, var):
         """It returns conditional cdf function f([var, c_vars]) = Pr(Y<c_var | var)
         """
-        funcond = self.ccond(var)
-        var, c_var = self.prepare_var(var)
-        new_cond = var
+        funcond = self.ccond(var).fun # on the unit cube
         def fun_(*X):
-            j, k = 0, 0
             Y = []
-            dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 Y.append(self.marginals[i].get_piecewise_cdf()(X[i]))
-                if i in set(var):
-                    pass
-                else:
-                    dF *= self.marginals[i].get_piecewise_pdf()(X[i])                    
             return funcond(*Y)
         return NDFun(self.d, self.Vars, fun_)
     def debug_info(self):
-- 
2.43.0


From 417d34dcadfcd10f092d575995eff9abec8e596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:36 +0000
Subject: [PATCH 53/82] fix: two dimensional Gumbel and Frank copulas failed
 for integer arguments

---
 pacal/depvars/copulas.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index bfcb47b..89481c9 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -590,17 +590,17 @@ class GumbelCopula2d(Copula):
     def fi_inv(self, s):
         return exp(-s ** self.one_over_theta)
     def cpdf(self, *X):
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si) * (si ** (self.one_over_theta - 2.0) * (-1.0 + self.theta + si ** self.one_over_theta)) / self.theta_square
         for xi in X:
-            si *= self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi          
+            si = si * self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi
         return si
     def ccdf(self, *X):
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si)
         return si
 
@@ -682,18 +682,18 @@ class FrankCopula2d(Copula):
         else:
             return -1.0 / self.theta * logexp_p1(-s, 0)
     def cpdf(self, *X):
-        si = zeros_like(X[0])
-        pi = ones_like(X[0])
+        si = zeros_like(X[0], dtype=float)
+        pi = ones_like(X[0], dtype=float)
         n = len(X)
         for xi in X:
-            si += xi
-            pi *= -np.expm1(-self.theta * xi)
+            si = si + xi
+            pi = pi * -np.expm1(-self.theta * xi)
         yi = self.theta * self.eta * np.exp(-self.theta * si) / (self.eta - pi) ** n
         return yi
     def ccdf(self, *X):
-        pi = ones_like(X[0])
+        pi = ones_like(X[0], dtype=float)
         for xi in X:
-            pi *= -expm1(-self.theta * xi)
+            pi = pi * -expm1(-self.theta * xi)
         yi = -self.one_over_theta * np.log1p(-pi / self.eta)
         return yi
 
-- 
2.43.0


From 8099e5b2faa7356c4184a0dd81ea0f92e71f27bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 54/82] fix: sparse grids sum over a list, numpy no longer sums
 generators

---
 pacal/depvars/sparse_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/sparse_grids.py b/pacal/depvars/sparse_grids.py
index ce8ba33..d5dda3e 100644
--- a/pacal/depvars/sparse_grids.py
+++ b/pacal/depvars/sparse_grids.py
@@ -189,7 +189,7 @@ class AdaptiveSparseGridInterpolator(object):
             c = (-1)**(q-si) * binomial_coeff(self.d - 1, q-si)
             subgrid_map[p] = (c, array(subgrid_indices))
         if params.interpolation_nd.debug_info:
-            print(len(subgrid_map), "rect. subgrids,", sum(len(subgrid_map[k]) for k in subgrid_map), "ops per X,", len(nodes), "nodes,", end=' ')
+            print(len(subgrid_map), "rect. subgrids,", sum([len(subgrid_map[k]) for k in subgrid_map]), "ops per X,", len(nodes), "nodes,", end=' ')
             print("full grid size", self.exps[q-self.d+1]**self.d, "dim", self.d)
         return nodes, subgrid_map
 
-- 
2.43.0


From cc235dbe5b289115f4781ebb18c1a9d324913a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 55/82] fix: a joint function of numbers is zero when any
 argument is outside its range

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 0543ae8..6ac5158 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -80,7 +80,7 @@ class NDFun(object):
         elif isscalar(X[0]):
             mask = (X[0] >= self.a[0]) and (X[0] <= self.b[0])
             for i in range(1, len(X)):
-                mask = mask or ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
+                mask = mask and (X[i] >= self.a[i]) and (X[i] <= self.b[i])
             if mask:
                 y = self.fun(*X)
             else:
-- 
2.43.0


From 9cd342f1c655e8c7abad0b6059beae9e2c2cb073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 56/82] fix: joint functions of integer arrays are not
 truncated to integers

---
 pacal/depvars/nddistr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 6ac5158..4ee8448 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -89,7 +89,7 @@ class NDFun(object):
             mask = (X[0] >= self.a[0]) & (X[0] <= self.b[0])
             for i in range(1, len(X)):
                 mask &= ((X[i] >= self.a[i]) & (X[i] <= self.b[i]))
-            y = zeros_like(X[0])
+            y = zeros(X[0].shape)
             y[mask] = self.fun(*[xi[mask] for xi in X])
         if self.safe:
             y = nan_to_num(y)
@@ -991,7 +991,7 @@ class NDNoisyFun(NDDistr):
             else:
                 y = 0
         else:
-            y = zeros_like(X[0])
+            y = zeros(X[0].shape)
             z = X[-1]
             fy = self.f(*X[:-1])
             mask = (self.noise_a <= z - fy) & (z - fy <= self.noise_b)
-- 
2.43.0


From a6f5394919bdabece6d55aee9644521c13aef085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 57/82] fix: eliminating several variables removes the ones
 asked for

---
 pacal/depvars/nddistr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 4ee8448..38c437f 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -182,7 +182,8 @@ class NDFun(object):
             return m
         else:
             # TODO: eliminate all vars at once using sparse grid integration
-            return m.eliminate(var[:-1])
+            # m has fewer dimensions, so refer to variables, not to indices
+            return m.eliminate([self.Vars[i] for i in var[:-1]])
 
 
 class InterpRunner(object):
-- 
2.43.0


From de3778cb14197df4445f4d17c42325fda3cee4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 58/82] fix: eliminating the last variable works, also when its
 range is infinite

---
 pacal/depvars/nddistr.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 38c437f..c2fa36b 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -41,6 +41,15 @@ def getRanges(vars, ci=None):
             a[i], b[i] = vars[i].ci(ci)
     return a, b
 
+def integrate_range(fun, a, b):
+    """Integrate fun over the range of a variable, possibly infinite."""
+    if isfinite(a) and isfinite(b):
+        return integrate_fejer2(fun, a, b)
+    if isfinite(a):
+        return integrate_fejer2_pinf(fun, a, exponent = params.integration_infinite.exponent)
+    if isfinite(b):
+        return integrate_fejer2_minf(fun, b, exponent = params.integration_infinite.exponent)
+    return integrate_fejer2_pminf(fun, exponent = params.integration_infinite.exponent)
 
 
 class NDFun(object):
@@ -171,10 +180,7 @@ class NDFun(object):
 #            else:
 #                y = integrate_fejer2(partial(integ_f, self, arg, c_var, v1, X), self.a[v1], self.b[v1])
 #            return NDConstFactor(y[0])
-            if hasattr(self, "f"):
-                y = integrate_fejer2(partial(InterpRunner(self.fun, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
+            y = integrate_range(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
             return NDConstFactor(y[0])
         #m = NDInterpolatedDistr(self.d - 1, partial(self.interp_f, self, arg, c_var, v1), [self.Vars[i] for i in c_var])
         m = NDInterpolatedDistr(self.d - 1, InterpRunner(self, arg, c_var, v1).interpxx, [self.Vars[i] for i in c_var])
@@ -200,7 +206,7 @@ class InterpRunner(object):
         if hasattr(self.ndfun, "f"):
             y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])[0]
         else:
-            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])[0]
+            y = integrate_range(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])[0]
         return y
     def interpxx(self, *X):
         """convolution of f and g
@@ -212,7 +218,7 @@ class InterpRunner(object):
             if hasattr(self.ndfun, "f"):
                 y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])
             else:
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
+                y = integrate_range(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
             return y[0]
         xx = transpose(array(X))
         if isscalar(xx):
-- 
2.43.0


From d78cb960957a23719eadec3c98d7eedde2c1117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 59/82] fix: NDDistr.cov centres both variables and includes
 variances

---
 pacal/depvars/nddistr.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index c2fa36b..b67f0f4 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -355,14 +355,15 @@ class NDDistr(NDFun):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g  = dij.Vars[0], self.Vars[1]
-            fmean = 0 #f.mean()
-            gmean = 0 #g.mean()
-            f0, f1 = f.range()
-            g0, g1 = g.range()
-            if i == j:
-                c, e =  1, 0#integrate_fejer2(lambda x: (x - fmean) ** 2 * f.pdf(x), f0, f1)
+            if var[0] == var[1]:
+                f0, f1 = dij.a[0], dij.b[0]
+                fmean, e = integrate_range(lambda x: x * dij.pdf(x), f0, f1)
+                c, e = integrate_range(lambda x: (x - fmean) ** 2 * dij.pdf(x), f0, f1)
             else:
+                f0, f1 = dij.a[0], dij.b[0]
+                g0, g1 = dij.a[1], dij.b[1]
+                fmean, e = integrate_iter(lambda x, y: x * dij.pdf(x, y), f0, f1, g0, g1)
+                gmean, e = integrate_iter(lambda x, y: y * dij.pdf(x, y), f0, f1, g0, g1)
                 c, e = integrate_iter(lambda x, y: (x - fmean) * (y - gmean) * dij.pdf(x, y), f0, f1, g0, g1)
             return c
         else:
-- 
2.43.0


From 8f75c59b9960ee968a43a7a8ec90aeee616e1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 60/82] fix: default marginals of NDNormalDistr have the right
 deviations

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index b67f0f4..d72c9bd 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -525,7 +525,7 @@ class NDNormalDistr(NDDistr):
         assert len(Sigma.shape) == 2
         assert Sigma.shape[0] == Sigma.shape[1] == d
         if Vars is None:
-            Vars = [NormalDistr(mu[i], Sigma[i,i], sym = LETTERS[i]) for i in range(d)]
+            Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
         self.a = [m-5 for m in mu] # FIX THIS!!!
-- 
2.43.0


From 243de7fcfcd1382943cf9da5fee0f3677d2efef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 61/82] fix: the range of NDNormalDistr covers large deviations

---
 pacal/depvars/nddistr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index d72c9bd..e8e8a38 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -528,8 +528,8 @@ class NDNormalDistr(NDDistr):
             Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
-        self.a = [m-5 for m in mu] # FIX THIS!!!
-        self.b = [m+5 for m in mu] # FIX THIS!!!
+        self.a = [mu[i] - 5 * max(1.0, sqrt(Sigma[i,i])) for i in range(d)] # FIX THIS!!!
+        self.b = [mu[i] + 5 * max(1.0, sqrt(Sigma[i,i])) for i in range(d)] # FIX THIS!!!
         self.mu = mu
         self.Sigma = Sigma
         self.invSigma = array(Sigma.I)
-- 
2.43.0


From 8adf15a1f94b5773451ca520741dc68e32459dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 62/82] fix: NDNormalDistr.pdf accepts arrays of integers

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index e8e8a38..b6ac0e5 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -541,7 +541,7 @@ class NDNormalDistr(NDDistr):
         else:
             Xa = np.asarray(X)
             Xa = Xa.transpose(list(range(1, len(X[0].shape) + 1)) + [0])
-            Xa -= self.mu
+            Xa = Xa - self.mu
             Z = (dot(Xa, self.invSigma) * Xa).sum(axis= -1)
             return self.nrm * exp(-0.5 * Z)
 
-- 
2.43.0


From e886e29470b6c78df1363436eb375cb48f773799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 63/82] fix: conditioning NDNormalDistr with several free or
 fixed variables

---
 pacal/depvars/nddistr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index b6ac0e5..3447dc4 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -557,12 +557,12 @@ class NDNormalDistr(NDDistr):
         var, c_var = self.prepare_var(var)
         if len(c_var) == 0:
             return NDOneFactor()
-        Sigma_11 = self.Sigma[c_var, c_var]
-        Sigma_12 = self.Sigma[c_var, var]
-        Sigma_21 = self.Sigma[var, c_var]
-        Sigma_22 = self.Sigma[var, var]
-        c_mu = self.mu[c_var] + Sigma_12 * Sigma_22.I * (X - self.mu[var])
-        c_mu = array(c_mu)[0]
+        Sigma_11 = self.Sigma[np.ix_(c_var, c_var)]
+        Sigma_12 = self.Sigma[np.ix_(c_var, var)]
+        Sigma_21 = self.Sigma[np.ix_(var, c_var)]
+        Sigma_22 = self.Sigma[np.ix_(var, var)]
+        dX = array([float(np.squeeze(x)) for x in X]) - self.mu[var]
+        c_mu = self.mu[c_var] + dot(array(Sigma_12 * Sigma_22.I), dX)
         c_Sigma = Sigma_11 - Sigma_12 * Sigma_22.I * Sigma_21
         return NDNormalDistr(c_mu, c_Sigma, [self.Vars[i] for i in c_var])
 
-- 
2.43.0


From 2ea9e160f8554b2f8f4e45077719af71212caa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 64/82] fix: conditioning a product on several variables of one
 factor

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 3447dc4..9261a97 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -781,7 +781,7 @@ class NDProductDistr(NDDistr):
                     cV.append(V)
                     cX.append(X[i])
             #print cf, cf.Vars[0].getSymname(), cf.condition(cV, cX, normalize=False)
-            new_cond_factors.append(cf.condition(cV, cX, normalize=False))
+            new_cond_factors.append(cf.condition(cV, *cX, normalize=False))
         cfp = NDProductDistr(kept_factors + new_cond_factors)
         nrm = cfp.eliminate(list(range(cfp.d)))
         nrm = nrm.as_constant()
-- 
2.43.0


From 4512358e48acc4ffc0766788585bb8e3ad9db239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 65/82] fix: ConditionalDistr passes the right variables to its
 marginal

---
 pacal/depvars/nddistr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 9261a97..2e5e7ba 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -650,7 +650,7 @@ class ConditionalDistr(NDFun):
             marg = nd.eliminate(c_var)
         self.marg = marg
     def pdf(self, *X):
-        return self.nd(*X) / self.marg(*[X[i] for i in self.cond_vars])
+        return self.nd(*X) / self.marg(*[X[self._prepare_single_var(v)] for v in self.marg.Vars])
     def eliminate(self, var):
         var, c_var = self.prepare_var(var)
         if set(c_var) == set(self.cond_vars): # all unconditionned vars eliminated
@@ -663,7 +663,12 @@ class ConditionalDistr(NDFun):
         new_cond = set(self.cond_vars) - set(var)
         if len(new_cond) == 0: # no conditioning variables left
             return self.nd.condition(var, *X, **kwargs)
-        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=self.marg)
+        # the marginal depends only on the conditioning variables
+        marg = self.marg
+        marg_i = [i for i, v in enumerate(var) if v in self.cond_vars]
+        if len(marg_i) > 0:
+            marg = marg.condition([self.Vars[var[i]] for i in marg_i], *[X[i] for i in marg_i], **kwargs)
+        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in sorted(new_cond)], marg=marg)
         return cd
 
 def _get_str_sym_name(v):
-- 
2.43.0


From 0af1bdc3ad9bbca7cf3d45adadf364cfc1fa7b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 66/82] fix: conditioning NDNoisyFun on several variables

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 2e5e7ba..37e7b46 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -1035,7 +1035,7 @@ class NDNoisyFun(NDDistr):
         var, c_var = self.prepare_var(var)
         pf = NDNoisyFun.partial_f(self, self.d, var, X)
         new_vars = [self.Vars[i] for i in c_var]
-        cd = NDFun(self.d - 1, new_vars, pf)
+        cd = NDFun(len(new_vars), new_vars, pf)
         return cd
 
 if __name__ == "__main__":
-- 
2.43.0


From c298be69452f32dd009df81587882613115342e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:14 +0000
Subject: [PATCH 67/82] fix: ConditionalDistr accepts any function as its
 marginal

---
 pacal/depvars/nddistr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 37e7b46..83e2d4c 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -649,8 +649,13 @@ class ConditionalDistr(NDFun):
         if marg is None:
             marg = nd.eliminate(c_var)
         self.marg = marg
+        # order of variables is that of the marginal
+        if isinstance(marg, NDFun):
+            self.marg_vars = [self._prepare_single_var(v) for v in marg.Vars]
+        else:
+            self.marg_vars = self.cond_vars
     def pdf(self, *X):
-        return self.nd(*X) / self.marg(*[X[self._prepare_single_var(v)] for v in self.marg.Vars])
+        return self.nd(*X) / self.marg(*[X[i] for i in self.marg_vars])
     def eliminate(self, var):
         var, c_var = self.prepare_var(var)
         if set(c_var) == set(self.cond_vars): # all unconditionned vars eliminated
-- 
2.43.0


From 9286ad2876b87fce8a39ce36bab7100629acde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 68/82] fix: both halves of an infinite range are integrated

---
 pacal/depvars/nddistr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 83e2d4c..ff771e6 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -46,10 +46,12 @@ def integrate_range(fun, a, b):
     if isfinite(a) and isfinite(b):
         return integrate_fejer2(fun, a, b)
     if isfinite(a):
-        return integrate_fejer2_pinf(fun, a, exponent = params.integration_infinite.exponent)
+        return integrate_fejer2_pinf(fun, a)
     if isfinite(b):
-        return integrate_fejer2_minf(fun, b, exponent = params.integration_infinite.exponent)
-    return integrate_fejer2_pminf(fun, exponent = params.integration_infinite.exponent)
+        return integrate_fejer2_minf(fun, b)
+    i1, e1 = integrate_fejer2_minf(fun, 0.0)
+    i2, e2 = integrate_fejer2_pinf(fun, 0.0)
+    return i1 + i2, e1 + e2
 
 
 class NDFun(object):
-- 
2.43.0


From 178df9d1226c948aa10d79ae43e96dcae9a9abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 69/82] fix: a one variable factor is integrated over the
 segments of its density

---
 pacal/depvars/nddistr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index ff771e6..02862ac 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -497,6 +497,11 @@ class Factor1DDistr(NDDistr):
         return str(self.distr)
     def pdf(self, *X):
         return self.distr.pdf(*X)
+    def eliminate(self, var, a=None, b=None):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        return NDConstFactor(self.distr.get_piecewise_pdf().integrate())
 
 class NDConstFactor(NDDistr):
     def __init__(self, c):
-- 
2.43.0


From 4b34f3b9f75abdf9d8bbf136012c0e17986170f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:07 +0000
Subject: [PATCH 70/82] fix: NDDistr.cov evaluates the joint law at points of
 one shape

---
 pacal/depvars/nddistr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 02862ac..25fe4a0 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -364,9 +364,9 @@ class NDDistr(NDFun):
             else:
                 f0, f1 = dij.a[0], dij.b[0]
                 g0, g1 = dij.a[1], dij.b[1]
-                fmean, e = integrate_iter(lambda x, y: x * dij.pdf(x, y), f0, f1, g0, g1)
-                gmean, e = integrate_iter(lambda x, y: y * dij.pdf(x, y), f0, f1, g0, g1)
-                c, e = integrate_iter(lambda x, y: (x - fmean) * (y - gmean) * dij.pdf(x, y), f0, f1, g0, g1)
+                fmean, e = integrate_iter(lambda x, y: x * dij.pdf(x, y + 0 * x), f0, f1, g0, g1)
+                gmean, e = integrate_iter(lambda x, y: y * dij.pdf(x, y + 0 * x), f0, f1, g0, g1)
+                c, e = integrate_iter(lambda x, y: (x - fmean) * (y - gmean) * dij.pdf(x, y + 0 * x), f0, f1, g0, g1)
             return c
         else:
             c = zeros((self.d, self.d))
-- 
2.43.0


From 5627579ae02ed72e97a7bf46219097d56dffa08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 71/82] fix: logarithmic Chebyshev nodes are in increasing
 order

---
 pacal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 8ad2bf3..6dbe89c 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -106,7 +106,7 @@ def cheb_nodes(n, a = -1, b = 1):
 def cheb_nodes_log(n, a = 1, b = 10):
     """Chebyshev nodes in logspace for given degree n"""
     assert(0 < a  < b)
-    cs = np.cos(np.arange(n) * np.pi / (n-1))
+    cs = -np.cos(np.arange(n) * np.pi / (n-1))
     cs = np.exp(cs/2.0*np.log(b/a))*np.sqrt(a*b)
     # ensure that endpoints are exact
     cs[0] = a
@@ -151,7 +151,7 @@ def incremental_cheb_nodes(n, a = -1, b = 1):
 
 def incremental_cheb_nodes_log(n, a = 1, b = 10):
     """Extra Chebyshev nodes in logspace added by moving from degree m to n=2*m-1"""
-    cs = np.cos(np.arange(1,n-1,2) * np.pi / (n-1))
+    cs = -np.cos(np.arange(1,n-1,2) * np.pi / (n-1))
     return np.exp(cs/2.0*np.log(b/a))*np.sqrt(a*b)
 
 def cheb_nodes1(n, a = -1, b = 1):
-- 
2.43.0


From 9b318314a5591c8c23088f0987b1d19ac39f4716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 72/82] fix: a reversed interpolator keeps all its nodes

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 08db671..bd9602a 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -80,7 +80,7 @@ class Interpolator(object):
     def getNodes(self):
         return self.Xs, self.Ys
     def copyReverse(self):
-        return Interpolator(self.Xs[-1:1:-1], self.Ys[-1:1:-1])
+        return Interpolator(self.Xs[::-1], self.Ys[::-1])
 
 class BarycentricInterpolator(Interpolator):
     """Barycentric interpolation"""
-- 
2.43.0


From e91a26639d8faf9bcb1c66b3bd51c279b75c6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 73/82] fix: interpolators accept integer nodes and values

---
 pacal/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index bd9602a..e5d25aa 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -58,8 +58,8 @@ except:
 class Interpolator(object):
     """Polynomial interpolation base class"""
     def __init__(self, Xs, Ys):
-        self.Xs = array(Xs)
-        self.Ys = array(Ys)
+        self.Xs = array(Xs, dtype=float)
+        self.Ys = array(Ys, dtype=float)
         #self.n = len(self.Xs)
     def add_nodes(self, new_Xs, new_Ys):
         """Add new interpolation nodes."""
@@ -89,7 +89,7 @@ class BarycentricInterpolator(Interpolator):
         if (weights is None):
             self.init_weights(Xs)
         else:
-            self.weights = weights
+            self.weights = array(weights, dtype=float)
     def add_nodes(self, new_Xs, new_Ys):
         """Add new interpolation nodes."""
         super(BarycentricInterpolator, self).add_nodes(new_Xs, new_Ys)
-- 
2.43.0


From d687ea4266efc1168abb28adc046b26ae39b1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 74/82] fix: infinite interpolators do not round values at
 integer points

---
 pacal/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index e5d25aa..0c4a9b4 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -851,6 +851,7 @@ class PInfInterpolator(object):
             if self.x_vb_max is None:
                 y = self.vb(x)
             else:
+                x = asarray(x, dtype=float)
                 y = empty_like(x)
                 mask = (x <= self.x_vb_max)
                 y[mask] = self.vb(x[mask])
-- 
2.43.0


From c54b468ce473a74710e27fae8e914d5309622338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 75/82] fix: nodes of a negative function with a right pole
 keep its sign

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 0c4a9b4..b46a6df 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -665,7 +665,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), expm1(self.Ys)
+        return self.xt(self.Xs), self.sign * expm1(self.Ys)
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
-- 
2.43.0


From d639ca56aa281f6ddf2dcc0b03753a170d1304a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 76/82] fix: a function with a right pole may vanish in the
 middle of the interval

---
 pacal/interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index b46a6df..58d80ce 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -651,6 +651,8 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         self.orig_a = a
         self.orig_b = b
         self.sign = int(sign(self.wrapped_f(float(a + b) / 2)).item())
+        if self.sign == 0:
+            self.sign = 1
         if b == 0:
             offset = 1e-50
         else:
-- 
2.43.0


From 4aa0d6692c789f85ace9f0d1adbf088b60ebb9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 77/82] fix: the highest Chebyshev coefficient is not doubled

---
 pacal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 6dbe89c..50c67f9 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -178,14 +178,14 @@ def chebt2(f):
     #print n, len(fftcoef)
     #print fftcoef[n-1:]
     #print fftcoef[n-1:0:-1]
-    fftcoef[n-1:0:-1] += fftcoef[n-1:] # z+conj(z)
+    fftcoef[n-2:0:-1] += fftcoef[n:] # z+conj(z)
     return fftcoef[n-1::-1]
     #return c
 def ichebt2(c):
     """inverse chebyshev transformation, values of function in Chebyshev
     nodes of the second kind, see chebfun for details"""
     n = len(c)
-    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, c[0:-1]/2));
+    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, c[0:1], c[1:-1]/2));
     v = np.real(ifft(oncircle));
     f = (n-1)*np.concatenate(([2*v[0]], v[1:n-1]+v[-1:n-1:-1], [2*v[n-1]] ))
     return f
-- 
2.43.0


From 3f46e4fa9bd92df9dfa9097f5f574d48bfd3072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:27 +0000
Subject: [PATCH 78/82] fix: trim drops only negligible coefficients

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 58d80ce..7896d66 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -258,7 +258,7 @@ class ChebyshevInterpolator(BarycentricInterpolator, AdaptiveInterpolator):
         c = chebt2(self.Ys)
         if abstol is None:
             abstol = params.interpolation.convergence.abstol
-        while c[0] < abstol:
+        while len(c) > 2 and abs(c[0]) < abstol:
             c = c[1:]
         Ydiffvals = ichebt2(c)
         Ydiffvals = flipud(Ydiffvals)
-- 
2.43.0


From 4a2b37b46e83d721c4c0b139aa79f4e706286173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:04 +0000
Subject: [PATCH 79/82] fix: trim leaves interpolators on partial or
 transformed nodes as they are

---
 pacal/interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 7896d66..fa038c8 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -312,6 +312,9 @@ class ChebyshevInterpolatorNoL(ChebyshevInterpolator):
         return super(ChebyshevInterpolatorNoL, self).diff(use_2nd=False)
     def roots(self):
         return super(ChebyshevInterpolatorNoL, self).roots(use_2nd=False)
+    def trim(self, abstol=None):
+        # the transform of the values needs the full set of nodes
+        return self
 class ChebyshevInterpolatorNoR(ChebyshevInterpolator):
     """Adaptive Chebyshev interpolator without rightmost point"""
     def init_weights(self, Xs):
@@ -333,6 +336,9 @@ class ChebyshevInterpolatorNoR(ChebyshevInterpolator):
         return super(ChebyshevInterpolatorNoR, self).diff(use_2nd=False)
     def roots(self):
         return super(ChebyshevInterpolatorNoR, self).roots(use_2nd=False)
+    def trim(self, abstol=None):
+        # the transform of the values needs the full set of nodes
+        return self
 
 class AdaptiveInterpolator1(object):
     """Mix-in class for adaptive interpolators with 3*n rule"""
@@ -765,6 +771,9 @@ class VarTransformInterpolator(ChebyshevInterpolator): # original state
         return ret
     def getNodes(self):
         return self.vt.inv_var_change(self.Xs), self.Ys
+    def trim(self, abstol=None):
+        # values are those of the transformed variable
+        return self
 
 
 
-- 
2.43.0


From fc6355227e83d571ae854b6a2fc87b817aa5dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:16 +0000
Subject: [PATCH 80/82] fix: dense grid routine allocates a pointer for each
 dimension

---
 pacal/bary_interp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/bary_interp.pyx b/pacal/bary_interp.pyx
index 070675e..b95b637 100644
--- a/pacal/bary_interp.pyx
+++ b/pacal/bary_interp.pyx
@@ -119,7 +119,7 @@ def c_dense_grid_interp(one_over_x_m_xi_list not None, np.ndarray[DTYPE_t, ndim=
     for j in range(M):
         fs_copy[j] = fs[j]
     cdef unsigned int *ms = <unsigned int *>malloc(d * sizeof(unsigned int))
-    cdef DTYPE_t **one_over_x_m_xi_list_copy = <DTYPE_t **>malloc(M * sizeof(DTYPE_t *))
+    cdef DTYPE_t **one_over_x_m_xi_list_copy = <DTYPE_t **>malloc(d * sizeof(DTYPE_t *))
     cdef np.ndarray[DTYPE_t, ndim=2] one_over_x_m_xi
 
     for i in range(d):
-- 
2.43.0


From ea47f90a290687cfeea0940daaa2cdacac97f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:34 +0000
Subject: [PATCH 81/82] fix: are_free looks at all the variables

---
 pacal/depvars/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/models.py b/pacal/depvars/models.py
index 07120e7..7c2f61c 100644
--- a/pacal/depvars/models.py
+++ b/pacal/depvars/models.py
@@ -222,8 +222,8 @@ class Model(object):
             for var in vars_to_unchain:
                 #print ">>>>>>.", var.getSymname(), self.rv_to_equation[var]
                 #print ">>", self.rv_to_equation[var].atoms
-                if self.is_dependent(var) and self.are_free(self.rv_to_equation[var].atoms()):
-                    for a in self.rv_to_equation[var].atoms():
+                if self.is_dependent(var) and self.are_free(self.rv_to_equation[var].atoms(sympy.Symbol)):
+                    for a in self.rv_to_equation[var].atoms(sympy.Symbol):
                         print(">", a)
                         av = self.prepare_var(a)
                         print(">=", av)
@@ -351,7 +351,7 @@ class Model(object):
     def are_free(self, vars):
         for v in vars:
             if not self.is_free(v): return False
-            return True
+        return True
     def varchange_and_eliminate(self, var):
         if self.is_free(var) and len(self.dep_rvs)==0:
             # eliminujemy pozostale zmienne wolne
-- 
2.43.0


From 1b86884aad20cdb101e3f37fc57e6ff997d18e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:03 +0000
Subject: [PATCH 82/82] fix: functions of several variables, such as the
 Jacobian of an exchange, can be conditioned

---
 pacal/depvars/nddistr.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 25fe4a0..b1b2877 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -128,6 +128,18 @@ class NDFun(object):
         NDinv_transf = NDDistrWithVarSubst(self, vari, inv_transf, inv_transf_vars)
         return NDProductDistr([NDinv_transf, jacobian])
 
+    def condition(self, var, *X, **kwargs):
+        """Return the function with var fixed at X.  It need not be a
+        density so it is never normalized."""
+        var, c_var = self.prepare_var(var)
+        assert len(X) == len(var)
+        arg = [None] * self.d
+        if len(c_var) == 0:
+            for i, x in zip(var, X):
+                arg[i] = x
+            return NDConstFactor(float(numpy.squeeze(self(*arg))))
+        return NDFun(len(c_var), [self.Vars[i] for i in c_var], partial(_cond_f, self, arg, c_var, var, X))
+
 #        vars_change = []
 #        for i in range(len(self.Vars)):
 #            if id(vari)==self.Vars[i].id():
@@ -284,7 +296,7 @@ class InterpRunner(object):
 def _cond_f(f, arg, c_var, var, Xcond, *Xfree):
     """Helper function for intepolating after conditional density."""
     for i, j in enumerate(var):
-        arg[j] = zeros(Xfree[0].shape) + Xcond[i]
+        arg[j] = zeros(numpy.shape(Xfree[0])) + Xcond[i]
     for i, j in enumerate(c_var):
         arg[j] = Xfree[i]
     return f(*arg)
-- 
2.43.0

