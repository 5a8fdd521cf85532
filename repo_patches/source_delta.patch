From 75113d4dbee3b2457b91208bd49f88c407c89d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:53 +0000
Subject: [PATCH 001/121] fix: broadcast a SISO transfer over the shape of the
 MIMO operand in a sum

The branches read nonexistent attributes, so every SISO + MIMO sum of
Transfer models raised AttributeError.
---
 harold/_classes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2bd1796..dd5c579 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -526,13 +526,13 @@ class Transfer:
             else:
                 if self._isSISO:
                     return other +\
-                        Transfer([[self._num]*other.m for n in range(other.p)],
-                                 [[self._den]*other.m for n in range(other.p)],
+                        Transfer([[self._num]*other._m]*other._p,
+                                 [[self._den]*other._m]*other._p,
                                  self._dt)
                 else:
                     return self +\
-                        Transfer([[other.num]*other.m for n in range(other.p)],
-                                 [[other.den]*other.m for n in range(other.p)],
+                        Transfer([[other.num]*self._m]*self._p,
+                                 [[other.den]*self._m]*self._p,
                                  self._dt)
 
         # Regularize arrays and scalars and consistency checks
-- 
2.43.0


From fa02d44f418604f48fc385b86c395957f935e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:57 +0000
Subject: [PATCH 002/121] fix: refuse the sum of MIMO transfers with different
 shapes

The entrywise loop ran over the shape of the left operand only, so the
excess entries of the right one were silently dropped.
---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index dd5c579..6969186 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -478,6 +478,10 @@ class Transfer:
 
             # Both SISO or both MIMO
             if sisoflag in [0, 2]:
+                if self._shape != other.shape:
+                    raise ValueError('Shapes are not compatible for '
+                                     'addition. Model shapes are {0} and'
+                                     ' {1}'.format(self._shape, other.shape))
 
                 # Create empty num and den holders.
                 newnum = [[None]*self._m for n in range(self._p)]
-- 
2.43.0


From 3285d068bca3e3e4e761a8f79f4ce79099170c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:00 +0000
Subject: [PATCH 003/121] fix: keep the denominator of a SISO gain in products

Transfer(4, 2)*G was computed as 4*G.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 6969186..fbbca6d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -709,7 +709,7 @@ class Transfer:
             # For gain, convert to ndarray and let previous case handle it
             if self._isgain:
                 if self._isSISO:
-                    return other * float(self._num)
+                    return other * self.to_array().item()
                 else:
                     # recast as a numpy array and multiply
                     # if denominator has non unity entries
-- 
2.43.0


From 55284d35ea92403ae656b952b12d18308f0c5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:03 +0000
Subject: [PATCH 004/121] fix: pass the sampling period as dt in array @
 Transfer

It was passed as the denominator.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index fbbca6d..3af2c0a 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -960,7 +960,7 @@ class Transfer:
             else:
                 arr = other.real
 
-            return Transfer(arr.tolist(), self._dt) @ self
+            return Transfer(arr.tolist(), dt=self._dt) @ self
 
         elif isinstance(other, (int, float)):
             return self * other
-- 
2.43.0


From db67efd065dd8b9ca3dcda6383ae0ee9f01d0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:07 +0000
Subject: [PATCH 005/121] fix: multiply with the State operand instead of the
 State class

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 3af2c0a..2ab1bf8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -901,7 +901,7 @@ class Transfer:
                                  'so I cannot multiply these systems.')
 
             if isinstance(other, State):
-                return transfer_to_state(self) @ State
+                return transfer_to_state(self) @ other
 
             # 2.
             if other._isSISO:
-- 
2.43.0


From bce8a461f21f4026ce8022717c29e3e3acf694dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:10 +0000
Subject: [PATCH 006/121] fix: keep the operand order in Transfer * State

The product of a State is a matrix product, hence swapping the operands
changes the result or makes conforming operands fail.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2ab1bf8..a7a893e 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -698,7 +698,7 @@ class Transfer:
             if not self._dt == other._dt:
                 raise ValueError('The sampling periods don\'t match '
                                  'so I cannot multiply these systems. ')
-            return other*transfer_to_state(self)
+            return transfer_to_state(self)*other
 
         elif isinstance(other, Transfer):
             if not self._dt == other._dt:
-- 
2.43.0


From 7600d8509b6eda7eb2f8b26d5103014ac34fb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:14 +0000
Subject: [PATCH 007/121] fix: use the regularized array in Transfer @ array

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index a7a893e..ad68a4b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -884,7 +884,7 @@ class Transfer:
                 for c in range(tm):
                     t_G = Transfer(0, 1, dt=self._dt)
                     for ind in range(self._m):
-                        t_G += self[r, ind] * other[ind, [c]]
+                        t_G += self[r, ind] * arr[ind, [c]]
                     newnum[r][c] = t_G.num
                     newden[r][c] = t_G.den
 
-- 
2.43.0


From 982add3936097321bbe12fcfbcd806814d05d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:07 +0000
Subject: [PATCH 008/121] fix: strip leading zeros of every transfer
 coefficient array

Only plain lists were stripped. Arrays and MIMO entries with leading zeros
were refused as noncausal, or led to infinite poles. Taking float copies
also keeps the model independent of the arrays given by the caller.
---
 harold/_classes.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index ad68a4b..3b86651 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1331,6 +1331,23 @@ class Transfer:
         # End of the num, den for loop
         # =============================
 
+        # Leading zeros don't contribute to the degree of an entry.
+        def trim_entry(x):
+            if x.size > max(x.shape, default=1):
+                raise ValueError('Polynomial coefficients must be 1D arrays.')
+            if np.iscomplexobj(x) and np.any(x.imag):
+                raise ValueError('Complex valued representations are not '
+                                 'supported.')
+            x = np.trim_zeros(x.real.astype(float).ravel(), 'f')
+            return np.atleast_2d(x) if x.size else np.array([[0.]])
+
+        for ind, numden in enumerate(returned_numden_list):
+            if MIMO_flags[ind]:
+                returned_numden_list[ind] = [[trim_entry(x) for x in row]
+                                             for row in numden]
+            elif not None_flags[ind]:
+                returned_numden_list[ind] = trim_entry(numden)
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From 05f883d70cb5f945906bd000975732b15369c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:10 +0000
Subject: [PATCH 009/121] fix: refuse transfer models with zero denominators

Transfer(1, 0) and 1/Transfer(0) were accepted as models with infinite
gain.
---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 3b86651..d23ddc9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1595,6 +1595,10 @@ class Transfer:
 
         shape = get_shape_from_arg(num)
 
+        if not all(np.any(x) for x in (sum(den, []) if isinstance(den, list)
+                                       else [den])):
+            raise ValueError('Zero denominators are not allowed.')
+
         # Final gateway for the static gain
         if isinstance(den, list):
             # Check the max number of elements in each entry
-- 
2.43.0


From 0aa2368a30303e1921bcbc14bb0819de2244e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:29 +0000
Subject: [PATCH 010/121] fix: build row and column gain matrices as MIMO gains

A 1xm or px1 array given to Transfer is read as a polynomial, hence sums
and products of such gains were refused as noncausal.
---
 harold/_classes.py        | 7 ++++---
 harold/_discrete_funcs.py | 4 ++--
 harold/_system_funcs.py   | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d23ddc9..e810cdd 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -576,7 +576,7 @@ class Transfer:
                                      'shape is {0} but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
 
-                return Transfer(mat, dt=self._dt)
+                return Transfer(mat.tolist(), dt=self._dt)
 
             elif self._isSISO:
                 # 3
@@ -590,7 +590,8 @@ class Transfer:
             else:
                 # 5
                 if isinstance(s, float):
-                    return self + Transfer(np.ones(self.shape)*s, dt=self._dt)
+                    return self + Transfer((np.ones(self.shape)*s).tolist(),
+                                           dt=self._dt)
                 # 6
                 if self.shape != other.shape:
                     raise ValueError('Shapes are not compatible for '
@@ -873,7 +874,7 @@ class Transfer:
 
             # If self is gain, this is just matrix multiplication
             if self._isgain:
-                return Transfer(self.to_array() @ arr, dt=self._dt)
+                return Transfer((self.to_array() @ arr).tolist(), dt=self._dt)
 
             tp, tm = self._shape[0], arr.shape[1]
 
diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 33fe0ce..5ab6baa 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -109,8 +109,8 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
 
     if G._isgain:
         # Method doesn't matter
-        Gd = Transfer(G.to_array(), dt=dt) if isinstance(G, Transfer) else \
-                                                    State(G.to_array(), dt=dt)
+        Gd = Transfer(G.to_array().tolist(), dt=dt) \
+            if isinstance(G, Transfer) else State(G.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6890e09..9ccc507 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -345,7 +345,7 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array())
+            return Transfer(G.to_array().tolist())
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
-- 
2.43.0


From 93b96c42167e902ade6d49e244cad544030126f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:33 +0000
Subject: [PATCH 011/121] fix: broadcast a SISO gain in the sum of two transfer
 gains

The result was reshaped to the shape of the left operand which fails if it
is the SISO one.
---
 harold/_classes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index e810cdd..94855df 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -462,9 +462,7 @@ class Transfer:
             # If both are static gains
             if gainflag == 2:
                 try:
-                    s = self.shape
-                    num = (self.to_array() +
-                           other.to_array()).reshape(*s, 1).tolist()
+                    num = (self.to_array() + other.to_array()).tolist()
                     return Transfer(num, dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From 878fed00ca971a2830e92d9d3672f9476073a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:00 +0000
Subject: [PATCH 012/121] fix: accept real valued complex arrays in MIMO
 transfer + array

The array is checked to be real valued but then the complex typed one is
used, which the constructor refuses.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 94855df..e0728ab 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -596,7 +596,7 @@ class Transfer:
                                      'addition. Transfer shape is {0}'
                                      ' but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
-                return self + Transfer(other.tolist(), dt=self._dt)
+                return self + Transfer(s.tolist(), dt=self._dt)
         else:
             raise ValueError('I don\'t know how to add a {0} to a '
                              'Transfer representation (yet).'
-- 
2.43.0


From f581d3794181f5153e34420fdc4585d4cb0eb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:01 +0000
Subject: [PATCH 013/121] fix: invert transfers whose entries are dynamic but
 identically constant

If all numerators are multiples of the denominators there is no state left
in the realization, hence look at the realization and not at the gain flag.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index e0728ab..d32c392 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -824,7 +824,7 @@ class Transfer:
             # A-BD^{-1}C | BD^{-1}
             # -----------|--------
             # -D^{-1}C   | D^{-1}
-            if self._isgain:
+            if a.size == 0:
                 ai, bi, ci = a, b, c
             else:
                 ai = a - b @ solve(d, c)
-- 
2.43.0


From 1de4b70e7001ce17ecf1a1627643f7842527944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:05 +0000
Subject: [PATCH 014/121] fix: keep the sampling period in the sum of two
 dynamic State models

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d32c392..79dbd65 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2003,7 +2003,7 @@ class State:
                 addb = np.vstack((self._b, other.b))
                 addc = np.hstack((self._c, other.c))
                 addd = self._d + other.d
-                return State(adda, addb, addc, addd)
+                return State(adda, addb, addc, addd, dt=self._dt)
             # One of them is SISO and needs to be broadcasted
             else:
                 if self._isSISO:
-- 
2.43.0


From ce683be444077fc9f0ffe8854143496d3fb74339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:08 +0000
Subject: [PATCH 015/121] fix: call to_array in State gain times scalar

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 79dbd65..2c4d620 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2324,7 +2324,7 @@ class State:
                     mat = self.to_array() @ s
                 except ValueError:
                     # 1
-                    mat = self.to_array * s
+                    mat = self.to_array() * s
 
                 return State(mat, dt=self._dt)
 
-- 
2.43.0


From df57f1216fdeba60797cecd318236eea2cd3abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:11 +0000
Subject: [PATCH 016/121] fix: avoid infinite recursion in SISO State plus 1x1
 array

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2c4d620..07af284 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2099,7 +2099,7 @@ class State:
 
             elif self._isSISO:
                 # 3
-                if isinstance(s, float):
+                if isinstance(s, float) or s.size == 1:
                     return State(self._a, self._b, self._c, self._d + s,
                                  dt=self._dt)
                 # 4
-- 
2.43.0


From 00e54d1b0b9a19da9b92eb558c927eb053528bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:14 +0000
Subject: [PATCH 017/121] fix: check the shape of the regularized array in
 array @ State

1D arrays have no second dimension and raised IndexError.
---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 07af284..f3ff9ea 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2392,7 +2392,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[0] != other.shape[1] and not self._isSISO:
+                if np.ndim(s) and not self._isSISO \
+                        and self._shape[0] != s.shape[1]:
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. Model shape is {0} but'
                                      ' the array shape is {1}.'
-- 
2.43.0


From fc9017af3f3f4713a837981fbb0995462084660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:18 +0000
Subject: [PATCH 018/121] fix: return a State from static State and dynamic
 Transfer

State representations win over Transfer ones, however a static State was
converted to an array first and hence a Transfer was returned. This also
allows the broadcasting of SISO gains.
---
 harold/_classes.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f3ff9ea..5407394 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2036,10 +2036,7 @@ class State:
 
             # If one of them is a static gain
             elif gainflag == 1:
-                if self._isgain:
-                    return self.to_array() + other
-                else:
-                    return self + other.to_array()
+                return self + transfer_to_state(other)
             # No static gains, carry on
             else:
                 pass
@@ -2250,10 +2247,7 @@ class State:
 
             # If one of them is a static gain
             elif gainflag == 1:
-                if self._isgain:
-                    return self.to_array() @ other
-                else:
-                    return self @ other.to_array()
+                return self @ transfer_to_state(other)
 
             # No static gains, carry on
             else:
-- 
2.43.0


From 10c5026f651778701bb8d34ec4d7cf196db417b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:41 +0000
Subject: [PATCH 019/121] fix: broadcast SISO gains in the product of static
 State models

Only the products with at least one dynamic model were broadcasted.
---
 harold/_classes.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5407394..7521d1d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2159,6 +2159,9 @@ class State:
             # If both are static gains
             if gainflag == 2:
                 try:
+                    if self._isSISO or other._isSISO:
+                        return State(self.to_array()*other.to_array(),
+                                     dt=self._dt)
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
@@ -2235,18 +2238,8 @@ class State:
 
             gainflag = sum([self._isgain, other._isgain])
 
-            # If both are static gains
-            if gainflag == 2:
-                try:
-                    return State(self.to_array()@other.to_array(), dt=self._dt)
-                except ValueError:
-                    raise ValueError('Shapes are not compatible for '
-                                     'multiplication. State shape is {0}'
-                                     ' but the Transfer shape is {1}.'
-                                     ''.format(self._shape, other.shape))
-
-            # If one of them is a static gain
-            elif gainflag == 1:
+            # If any of them is a static gain
+            if gainflag > 0:
                 return self @ transfer_to_state(other)
 
             # No static gains, carry on
-- 
2.43.0


From fc1b9039af98f4a26a93fd9a5b994ca323f770d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:02 +0000
Subject: [PATCH 020/121] fix: convert row and column gains in
 state_to_transfer

A 1xm or px1 feedthrough array was read as a polynomial.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 7521d1d..eb2a5bd 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2838,7 +2838,7 @@ def state_to_transfer(state_or_abcd, output='system'):
     if it_is_gain:
         if output == 'p':
             return D, np.ones_like(D)
-        return Transfer(D, dt=dt)
+        return Transfer(D.tolist(), dt=dt)
 
     n = A.shape[0]
 
-- 
2.43.0


From 90440d90e32eaf2f6c28aa19035ba5589f83e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:06 +0000
Subject: [PATCH 021/121] fix: return Transfer arguments of state_to_transfer
 unchanged

This is documented but they were unpacked as state matrices.
---
 harold/_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index eb2a5bd..8513af9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2818,6 +2818,9 @@ def state_to_transfer(state_or_abcd, output='system'):
     dt = None
     system_given = isinstance(state_or_abcd, State)
 
+    if isinstance(state_or_abcd, Transfer):
+        return state_or_abcd.polynomials if output == 'p' else state_or_abcd
+
     if system_given:
         A, B, C, D = state_or_abcd.matrices
         p, m = state_or_abcd.shape
-- 
2.43.0


From aa4219c2cd6041e6454b9407c4e1f45e3f377120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:09 +0000
Subject: [PATCH 022/121] fix: return empty matrices for a fully cancelled SISO
 transfer

The matrices output of transfer_to_state had None entries as opposed to
the static gains and MIMO models.
---
 harold/_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8513af9..4860cb3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3009,9 +3009,9 @@ def transfer_to_state(G, output='system'):
 
             # If all cancelled datanum is returned empty
             if datanum.size == 0:
-                A = None
-                B = None
-                C = None
+                A, B, C = (np.empty((0, 0)),)*3
+                D = np.atleast_2d(NumOrEmpty).astype(float)
+                return (A, B, C, D) if output == 'matrices' else State(D, dt=dt)
             else:
                 C = np.zeros((1, den.size-1))
                 C[0, :datanum.size] = datanum[::-1]
-- 
2.43.0


From c9e6aeda699a81be0a2714194e0072ca9254fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:13 +0000
Subject: [PATCH 023/121] fix: keep the sampling period of static gains in
 minimal_realization

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 9ccc507..db00d5f 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -335,7 +335,7 @@ def minimal_realization(G, tol=1e-6):
 
     if type(G).__name__ == 'State':
         if G._isgain:
-            return State(G.to_array())
+            return State(G.to_array(), dt=G.SamplingPeriod)
         else:
             A, B, C, D = G.matrices
             Am, Bm, Cm = _minimal_realization_state(A, B, C, tol=tol)
@@ -345,7 +345,7 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array().tolist())
+            return Transfer(G.to_array().tolist(), dt=G.SamplingPeriod)
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
-- 
2.43.0


From 14ea2f8c5c8b4c5255f4c8b8087e85b830b4af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:17 +0000
Subject: [PATCH 024/121] fix: return B and C in order from the observer
 staircase form

If the number of independent outputs equals the number of states the
arrays of the pertransposed system were not swapped back.
---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index db00d5f..bf72b4d 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -96,7 +96,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         if invert:
             A0, B0, C0 = fliplr(flipud(A0)), flipud(B0), fliplr(C0)
             T = flipud(T)
-        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, B0.T, C0.T, T.T)
+        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
     tol_from_A = n*norm(A, 1)*np.spacing(1.)
-- 
2.43.0


From eccc43ca41cbef3e0fab886367c28d899e324c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:20 +0000
Subject: [PATCH 025/121] fix: return static gains unchanged from
 hessenberg_realization

This is documented but the empty state array was factorized.
---
 harold/_system_funcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index bf72b4d..f80a89a 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -182,6 +182,11 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     else:
         _check_for_state_or_transfer(G)
         in_is_sys = True
+        if G._isgain:
+            if output != 'system':
+                G = transfer_to_state(G, output='matrices')[:3]
+                return (*G, eye(0)) if compute_T else G
+            return (G, eye(0)) if compute_T else G
         if type(G).__name__ == 'Transfer':
             a, b, c, _ = transfer_to_state(G, output='matrices')
         else:
-- 
2.43.0


From a22531e5340e5c69226b5fa1dd34d90e3791399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:42 +0000
Subject: [PATCH 026/121] fix: drop the dependent channels while computing
 transmission zeros

If the system matrix doesn't have full normal rank, the zero rows left in
[C, D] were kept and the zeros came out as inf or arbitrary values. This
also made state_to_transfer fail for identically zero entries.
---
 harold/_classes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4860cb3..f507da1 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3220,6 +3220,10 @@ def transmission_zeros(A, B, C, D):
 
     n, (p, m) = Arc.shape[0], Drc.shape
 
+    # No channels left, only hidden modes
+    if p == 0:
+        return eigvals(Arc)
+
     *_, v = haroldsvd(np.hstack((Drc, Crc)))
     v = np.roll(np.roll(v.T, -m, axis=0), -m, axis=1)
     T = np.hstack((Arc, Brc)) @ v
@@ -3260,6 +3264,8 @@ def _tzeros_reduce(A, B, C, D):
         q_of_c, *_, rho = haroldsvd(Ctilde.T, also_rank=1, rank_tol=m_eps)
         nu = n - rho
         if rho == 0:  # [C,D] happen to be compressed simultaneously
+            # Only the full row rank part is needed
+            C, D = Cbar, r_of_d[:sigma, :] if sigma > 0 else D[:0, :]
             break
         elif nu == 0:  # [C, D] happen to form a invertible matrix
             A, B, C, D = np.array([]), np.array([]), np.array([]), np.array([])
@@ -3273,8 +3279,8 @@ def _tzeros_reduce(A, B, C, D):
             B, D = BD_slice[:nu, :], BD_slice[nu:, :]
         else:
             ABCD_slice = q_of_c.T @ np.c_[A @ q_of_c, B]
-            A, B, C, D = (ABCD_slice[:nu, :nu], ABCD_slice[:nu, -m:],
-                          ABCD_slice[nu:, :nu], ABCD_slice[nu:, -m:])
+            A, B, C, D = (ABCD_slice[:nu, :nu], ABCD_slice[:nu, n:],
+                          ABCD_slice[nu:, :nu], ABCD_slice[nu:, n:])
     return A, B, C, D
 
 
-- 
2.43.0


From c8f0e17a92f13d53aedcdbb35b7da737756bc80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:49 +0000
Subject: [PATCH 027/121] fix: scale the rank tolerance of the zero computation
 with all matrices

It was scaled only with the norm of A. Hence for A = 0 rounding errors in
the other arrays were taken as nonzero and zeros were missed or made up.
---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f507da1..5c1d102 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3243,7 +3243,8 @@ def _tzeros_reduce(A, B, C, D):
     Basic deflation loop until we get a full row rank feedthrough matrix.
     """
     m_eps = np.spacing(100 * np.sqrt((A.shape[0] + C.shape[0]) * (
-                       A.shape[1] + B.shape[1]))) * norm(A, 'fro')
+                       A.shape[1] + B.shape[1]))) * norm(
+                           np.block([[A, B], [C, D]]), 'fro')
 
     for x in range(A.shape[0]):  # At most!
         n, (p, m) = A.shape[0], D.shape
-- 
2.43.0


From 736691ff5243eedd8d272e4472a8353b75a983d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:14 +0000
Subject: [PATCH 028/121] fix: refuse complex valued state matrices

The imaginary parts of complex arrays were dropped with only a warning.
---
 harold/_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5c1d102..25590ad 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2624,6 +2624,11 @@ class State:
                                            type(abcd).__qualname__))
 
             else:
+                if isinstance(abcd, ndarray) and np.iscomplexobj(abcd):
+                    if np.any(abcd.imag):
+                        raise ValueError('Complex valued representations are '
+                                         'not supported.')
+                    abcd = abcd.real
                 # Row/column consistency is checked by numpy
                 try:
                     if verbose:
-- 
2.43.0


From 7019892ca43fa5bd67683ae19d37087e18d881df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:52 +0000
Subject: [PATCH 029/121] fix: recompute stability when the sampling period is
 assigned

---
 harold/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 25590ad..8ff46b0 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -58,6 +58,7 @@ class Transfer:
         self._isgain = False
         self._isSISO = False
         self._isstable = False
+        self.poles = np.array([])
         self._DiscretizedWith = None
         self._DiscretizationMatrix = None
         self._PrewarpFrequency = 0.
@@ -272,6 +273,8 @@ class Transfer:
             self._dt = None
             self._isdiscrete = False
 
+        self._set_stability()
+
     @num.setter
     def num(self, value):
 
@@ -1647,6 +1650,7 @@ class State:
         self._isSISO = False
         self._isgain = False
         self._isstable = False
+        self.poles = np.array([])
 
         *abcd, self._shape, self._isgain = self.validate_arguments(a, b, c, d)
 
@@ -1889,6 +1893,8 @@ class State:
             self._dt = None
             self._isdiscrete = False
 
+        self._set_stability()
+
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
         if value in _KnownDiscretizationMethods:
-- 
2.43.0


From 4245dff35bb387969a62e560e623240957b6b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:55 +0000
Subject: [PATCH 030/121] fix: update the static gain flag when num or den is
 assigned

---
 harold/_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8ff46b0..844dbf9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -278,7 +278,8 @@ class Transfer:
     @num.setter
     def num(self, value):
 
-        user_num, _, user_shape = self.validate_arguments(value, self._den)[:3]
+        user_num, _, user_shape, user_gain = self.validate_arguments(
+            value, self._den)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -288,12 +289,14 @@ class Transfer:
                              ''.format(*user_shape+self._shape))
         else:
             self._num = user_num
+            self._isgain = user_gain
             self._recalc()
 
     @den.setter
     def den(self, value):
 
-        user_den, user_shape = self.validate_arguments(self._num, value)[1:3]
+        user_den, user_shape, user_gain = self.validate_arguments(
+            self._num, value)[1:]
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -303,6 +306,7 @@ class Transfer:
                              ''.format(*user_shape+self._shape))
         else:
             self._den = user_den
+            self._isgain = user_gain
             self._recalc()
 
     @DiscretizedWith.setter
-- 
2.43.0


From 8eee5a081e12f772c7f09e55b6ea5e695544056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:00 +0000
Subject: [PATCH 031/121] fix: keep the shape when d of a static State is
 assigned

---
 harold/_classes.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 844dbf9..b111f5f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1871,12 +1871,18 @@ class State:
 
     @d.setter
     def d(self, value):
-        value = self.validate_arguments(
-            np.zeros_like(self._a),
-            np.zeros_like(self._b),
-            np.zeros_like(self._c),
-            value
-            )[3]
+        if self._isgain:
+            value = self.validate_arguments(None, None, None, value)[3]
+            if value.shape != self._shape:
+                raise ValueError('D matrix must have the shape {0} but got {1}'
+                                 '.'.format(self._shape, value.shape))
+        else:
+            value = self.validate_arguments(
+                np.zeros_like(self._a),
+                np.zeros_like(self._b),
+                np.zeros_like(self._c),
+                value
+                )[3]
         self._d = value
         self._recalc()
 
-- 
2.43.0


From 315c03bfbd6797bd452002143570132d5ed260c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:04 +0000
Subject: [PATCH 032/121] fix: hide the discretization notes of continuous-time
 State models

---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index b111f5f..0e147b3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1772,6 +1772,8 @@ class State:
         possible to manually set this property such that ``undiscretize``
         uses the provided method.
         """
+        if self.SamplingSet == 'R':
+            return None
         return self._DiscretizedWith
 
     @property
@@ -1820,6 +1822,8 @@ class State:
             :doi:`10.1080/00207170802247728>`
 
         """
+        if self.SamplingSet == 'R' or not self.DiscretizedWith == 'lft':
+            return None
         return self._DiscretizationMatrix
 
     @property
-- 
2.43.0


From a5956884351f781fe3501dfc45e2beb93a4d5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:09 +0000
Subject: [PATCH 033/121] fix: repeated channel selection of SISO transfers

---
 harold/_classes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 0e147b3..d8e2dab 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -986,9 +986,13 @@ class Transfer:
         rc = np.arange(self.NumberOfOutputs)[rows_of_c].tolist()
         cb = np.arange(self.NumberOfInputs)[cols_of_b].tolist()
 
-        # if a SISO is sliced only [0,0] will pass, then return self
+        # if a single channel of a SISO is selected then return self
         if self._isSISO:
-            return self
+            rc, cb = np.size(rc), np.size(cb)
+            if rc <= 1 and cb <= 1:
+                return self
+            return Transfer([[self.num]*cb]*rc, [[self.den]*cb]*rc,
+                            dt=self._dt)
 
         # Is the result goint to be SISO ?
         if isinstance(rc, int) and isinstance(cb, int):
-- 
2.43.0


From 21314d9780eb27b763c46d3f0dbbe3fef22139ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:48 +0000
Subject: [PATCH 034/121] fix: drop noise beyond the exact degree of the lcm
 multipliers

---
 harold/_polynomial_ops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index b96a5dc..73061fa 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -157,7 +157,10 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
 
         lcmpoly[abs(lcmpoly) < cleanup_threshold] = 0.
         mults[abs(mults) < cleanup_threshold] = 0.
-        mults = [np.trim_zeros(z, 'f') for z in mults]
+        # Degrees are known exactly, anything above is numerical noise
+        degs = [np.trim_zeros(x, 'f').size - 1 for x in args]
+        mults = [np.trim_zeros(z[-(n_lcm - max(d, 0) + 1):], 'f')
+                 for z, d in zip(mults, degs)]
         return lcmpoly, mults
     else:
         return lcmpoly
-- 
2.43.0


From 4150bc0931d606e621513655414e09dbc6205038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:51 +0000
Subject: [PATCH 035/121] fix: discretize transfers that reduce to a static
 gain

---
 harold/_discrete_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 5ab6baa..128b249 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -107,10 +107,11 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
     else:
         T = G
 
-    if G._isgain:
+    # Exact cancellations might leave only a static gain
+    if T._isgain:
         # Method doesn't matter
-        Gd = Transfer(G.to_array().tolist(), dt=dt) \
-            if isinstance(G, Transfer) else State(G.to_array(), dt=dt)
+        Gd = Transfer(T.to_array().tolist(), dt=dt) \
+            if isinstance(G, Transfer) else State(T.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
-- 
2.43.0


From c57e808f59b059b4f6a1ae19677e5a2cb293503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:10 +0000
Subject: [PATCH 036/121] fix: undiscretize static gains

---
 harold/_discrete_funcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 128b249..4a9d444 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -268,14 +268,15 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
                 q = G.DiscretizationMatrix
 
     if isinstance(G, Transfer):
-        if G._isgain:
-            return Transfer(G.to_array)
         T = transfer_to_state(G)
+        # Exact cancellations might leave only a static gain
+        if T._isgain:
+            return Transfer(T.to_array().tolist())
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
         if G._isgain:
-            return State(G.to_array)
+            return State(G.to_array())
         undiscretized_args = _undiscretize(G, dt, method, prewarp_at, q)
         return State(*undiscretized_args)
 
-- 
2.43.0


From 3da1ca2a2ec4e618ff2a6ce64fc321516414d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:13 +0000
Subject: [PATCH 037/121] fix: off-diagonal scaling of the prewarped tustin
 inverse

---
 harold/_discrete_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 4a9d444..7094291 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -363,7 +363,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
                                  ' allowed is {1} Hz.'.format(dt, 1/(2*dt)))
             prew_rps = 2 * np.pi * prewarp_at
             sq2tan = np.sqrt(2*np.tan(prew_rps * dt / 2)/prew_rps)
-            q = np.array([[-2/sq2tan**2, 1/sq2tan], [1/sq2tan, -1]])
+            q = np.array([[-2/sq2tan**2, 2/sq2tan], [2/sq2tan, -1]])
 
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
-- 
2.43.0


From 8170ac0f0ad49c33b1616afaaa74a3f6ddfb842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:17 +0000
Subject: [PATCH 038/121] fix: use the stored prewarp frequency in undiscretize

---
 harold/_discrete_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 7094291..e04d99e 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -256,6 +256,8 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             method = 'tustin'
         else:
             method = G.DiscretizedWith
+            if prewarp_at == 0. and G.PrewarpFrequency is not None:
+                prewarp_at = G.PrewarpFrequency
 
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
-- 
2.43.0


From eb35371ad6f73c5115f5785a3166e809305c4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:21 +0000
Subject: [PATCH 039/121] fix: invert the interconnection in lft
 undiscretization

---
 harold/_discrete_funcs.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index e04d99e..71d5ffe 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -400,7 +400,25 @@ def _undiscretize(T, dt, method, prewarp_at, q):
         if q is None:
             raise ValueError('"lft" method requires a 2x2 interconnection '
                              'matrix "q" between s and z indeterminates.')
-        Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
+        q = np.asarray(q)
+        if q.ndim != 2 or q.shape != (2, 2):
+            raise ValueError('q must be exactly a 2x2 array')
+        q11, q12, q21, q22 = q.ravel()
+        # Solve 1/s = F_u(1/z, q) for z, that is
+        #   z = (q11 - det(q) s) / (1 - q22 s)
+        if q12*q21 == 0.:
+            raise ValueError('s does not depend on z through this "q", hence '
+                             'the conversion can\'t be undone.')
+        M = q22*T.a - (q11*q22 - q12*q21)*eye(n)
+        try:
+            Ac = solve(M, T.a - q11*eye(n))
+            Bc = solve(M, T.b)
+        except LinAlgError:
+            raise ValueError('The interconnection "q" sends some poles to '
+                             'infinity and this conversion method can\'t be '
+                             'used.')
+        Cc = q12*q21*solve(M.T, T.c.T).T
+        Dc = T.d - q22*(T.c @ Bc)
 
     return Ac, Bc, Cc, Dc
 
-- 
2.43.0


From c4cc2e803e3685527daf31c4ba6d7380decc37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:13 +0000
Subject: [PATCH 040/121] fix: evaluate the gain of state_to_transfer at the
 scale of the poles

---
 harold/_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d8e2dab..5711f16 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2902,11 +2902,13 @@ def state_to_transfer(state_or_abcd, output='system'):
 
             # Additional factor of 2 are just some tolerances
 
+            s0 = max(np.abs(pp).max(), .5)*2
             if zz.size != 0:
-                s0 = max(np.abs([*pp, *zz]).max(), .5)*2
+                # Numerically infinite zeros should not determine the scale
+                while np.any(np.abs(s0 - zz) < 0.1*s0):
+                    s0 *= 1.3
                 zero_prod = np.real(np.prod(s0*np.ones_like(zz) - zz))
             else:
-                s0 = max(np.abs(pp).max(), .5)*2
                 zero_prod = 1.0  # Not zero!
 
             CAB = c @ np.linalg.lstsq((s0*np.eye(n)-A), b, rcond=-1)[0]
-- 
2.43.0


From 9767ae70d0021e04e0a2e59ca8d937579d8e7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:04 +0000
Subject: [PATCH 041/121] fix: treat equal polynomials once in haroldlcm

---
 harold/_polynomial_ops.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 73061fa..9e662ab 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -92,6 +92,19 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     [p_ind.append(ind) if x.size == 1 else l_ind.append(ind)
         for ind, x in enumerate(args)]
 
+    # Equal polynomials have the same multiplier. Using each of them only once
+    # keeps the exactly repeated modes out of the rank decisions below.
+    keys = [x.tolist() for x in poppedargs]
+    uniq = [k for ind, k in enumerate(keys) if k not in keys[:ind]]
+    if len(uniq) < len(keys):
+        res = haroldlcm(*uniq, compute_multipliers=compute_multipliers,
+                        cleanup_threshold=cleanup_threshold)
+        if not compute_multipliers:
+            return res
+        lcmpoly, mults = res
+        return lcmpoly, [mults[uniq.index(x.tolist())].copy() if x.size > 1
+                         else lcmpoly.copy() for x in args]
+
     # If there are more than one nonconstant polynomial to consider
     if len(poppedargs) > 1:
         a = block_diag(*(map(haroldcompanion, poppedargs)))
-- 
2.43.0


From edef15ddbab855831af28e82b11f503e9668ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:01 +0000
Subject: [PATCH 042/121] fix: feedback of static models with a zero operand

---
 harold/_bd_algebra.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 2ad4499..810baad 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -88,8 +88,7 @@ def feedback(G, H, negative=True):
 
     # if both are static
     if g._isgain and h._isgain:
-        if np.any(d) and np.any(n):
-            mat = d + sign * (d @ solve(delta, n @ d))
+        mat = d + sign * (d @ solve(delta, n @ d))
 
         return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
     # if both are dynamic
-- 
2.43.0


From 57a284f618d4a5b28af5cd626b75125862fdbb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:06 +0000
Subject: [PATCH 043/121] fix: feedback of static transfers with a single row
 or column

---
 harold/_bd_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 810baad..31f8c8d 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -90,7 +90,7 @@ def feedback(G, H, negative=True):
     if g._isgain and h._isgain:
         mat = d + sign * (d @ solve(delta, n @ d))
 
-        return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
+        return Transfer(mat.tolist(), dt=dt) if conv_tf else State(mat, dt=dt)
     # if both are dynamic
     elif (not g._isgain) and (not h._isgain):
         acl = np.block([[a, np.zeros([n1, n2]), b],
-- 
2.43.0


From b0e58334a06457ac379f8bd502718383f88a980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:52 +0000
Subject: [PATCH 044/121] fix: compare frequency units case-insensitively
 everywhere

---
 harold/_frequency_domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 3b623f0..109f0ce 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -52,6 +52,7 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
             raise ValueError('Frequency unit must be "Hz" or "rad/s". "{0}"'
                              ' is not recognized.'.format(x))
 
+    w_unit, output_unit = w_unit.lower(), output_unit.lower()
     w = _get_freq_grid(G, w, samples, w_unit, 'rad/s')
 
     if G._isgain:
@@ -202,7 +203,7 @@ def _get_freq_grid(G, w, samples, iu, ou):
             raise ValueError('The frequency array should be a 1D float array')
 
         # convert the internal array to rad/s
-        if iu == 'Hz':
+        if iu.lower() == 'hz':
             w_u *= 2*np.pi
 
         # Discrete time behavior doesn't make sense beyond Nyquist freq.
-- 
2.43.0


From efe27149f82b73efad8400356d08fad2bb4b4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:56 +0000
Subject: [PATCH 045/121] fix: frequency response of static gains on the whole
 frequency grid

---
 harold/_frequency_domain.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 109f0ce..64f6dde 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -56,18 +56,8 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
     w = _get_freq_grid(G, w, samples, w_unit, 'rad/s')
 
     if G._isgain:
-        if G._isSISO:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = array([1]*2)*G.num[0, 0]
-            else:
-                fr_arr = array([1]*2)*G.d[0, 0]
-        else:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = zeros((2,)+G.shape) + G.to_array()
-            else:
-                fr_arr = zeros((2,)+G.shape) + G.d
-
-            fr_arr = rollaxis(fr_arr, 0, 3)
+        fr_arr = zeros((len(w),)+G.shape) + G.to_array()
+        fr_arr = fr_arr.ravel() if G._isSISO else rollaxis(fr_arr, 0, 3)
     else:
         p, m = G.shape
         fr_arr = empty((len(w), m, p), dtype='complex')
-- 
2.43.0


From c8a9d1e3ebce0f77065f7a4a444c1ee387bda746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:00 +0000
Subject: [PATCH 046/121] fix: pivot in the Hessenberg solves of the frequency
 response

---
 harold/_frequency_domain.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 64f6dde..624f577 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -143,6 +143,11 @@ def _State_freq_resp(mA, mb, sc, f, dt=None):
         U[:, :] = Ab  # Working copy
         U[imag_indices] += val*1j if dt is None else np.exp(dt*val*1j)
         for x in range(1, nn):
+            # Partial pivoting, the pivot can vanish though U is nonsingular
+            if abs(U[x, x-1]) > abs(U[x-1, x-1]):
+                U[[x-1, x], x-1:] = U[[x, x-1], x-1:]
+            elif U[x, x-1] == 0.:
+                continue
             U[x, x:] -= (U[x, x-1] / U[x-1, x-1]) * U[x-1, x:]
 
         r[ind, :] = U[-1, -m:] / U[-1, -1-m]
-- 
2.43.0


From 7b8f1d5ae6d53d16155fecab1d9561b06dc2c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:05 +0000
Subject: [PATCH 047/121] fix: reduce before the Hessenberg form in the
 frequency response

---
 harold/_frequency_domain.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 624f577..db3689c 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -64,13 +64,15 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
 
         if type(G).__name__ == 'State':
             for row in range(p):
-                aa, bb, cc = hessenberg_realization((G.a, G.b, G.c[[row], :]),
-                                                    form='o', invert=True,
-                                                    output='matrices')
+                aa, bb, cc = G.a, G.b, G.c[[row], :]
                 if use_minreal:
-                    aaa, bbb, ccc = _minimal_realization_state(aa, bb, cc)
-                else:
-                    aaa, bbb, ccc = aa, bb, cc
+                    aa, bb, cc = _minimal_realization_state(aa, bb, cc)
+                    if aa.size == 0:
+                        fr_arr[:, :, row] = 0.
+                        continue
+                aaa, bbb, ccc = hessenberg_realization((aa, bb, cc),
+                                                       form='o', invert=True,
+                                                       output='matrices')
                 dt = G.SamplingPeriod if G.SamplingSet == 'Z' else None
                 fr_arr[:, :, row] = _State_freq_resp(aaa, bbb, ccc[0, -1],
                                                      w, dt)
-- 
2.43.0


From 59a7b299de3f4ec6ac8e91a77c5d5a6c74a45e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:28 +0000
Subject: [PATCH 048/121] fix: minimal realization of models without
 controllable or observable modes

---
 harold/_system_funcs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index f80a89a..8f5e650 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -399,8 +399,8 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while kc <= tol:
                 Ac, Bc, Cc = (Ac[:-1, :-1], Bc[:-1, :], Cc[:, :-1])
                 if Ac.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
-                    break
+                    # Nothing left
+                    return Ac, Bc, Cc
                 else:
                     kc, *_ = cancellation_distance(Ac, Bc)
             # Return the resulting matrices
@@ -415,10 +415,9 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while ko <= tol:  # Until cancel dist gets big
                 Ao, Bo, Co = Ao[1:, 1:], Bo[1:, :], Co[:, 1:]
                 if Ao.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
                     break
                 else:
-                    ko, *_ = cancellation_distance(Ao, Bo)
+                    ko, *_ = cancellation_distance(Ao.T, Co.T)
 
             # Return the resulting matrices
             A, B, C = Ao, Bo, Co
-- 
2.43.0


From 419d4a5ebca6fc9451b58984345710217ccbbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:00 +0000
Subject: [PATCH 049/121] fix: keep the real part of a partially cancelled zero
 pair

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 8f5e650..77fd140 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -510,12 +510,12 @@ def _minimal_realization_simplify(num, den, tol):
                 plz = np.delete(plz, match_index)
                 # Now search another real pole that is also close
                 dist = np.abs(plz-z)
-                if np.min(dist) < tol + tol*np.abs(z):
+                if plz.size > 0 and np.min(dist) < tol + tol*np.abs(z):
                     match_index = np.argmin(dist)
                     plz = np.delete(plz, match_index)
                 else:
                     # It was a real/complex cancellation, make the zero real
-                    safe_z += np.real(z)
+                    safe_z += [np.real(z)]
 
             elif not bool_cz and bool_cp:
                 # Same with above but this time we convert the other pole
-- 
2.43.0


From 0410a00884f3bf5dcd8b3b042c4d9cf2ab30ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:27 +0000
Subject: [PATCH 050/121] fix: cancel the denominator of zero entries in
 minimal realization

---
 harold/_system_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 77fd140..c8c4232 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -462,6 +462,8 @@ def _minimal_realization_simplify(num, den, tol):
     '''
     # Early exit if numerator is a scalar
     if num.size == 1:
+        if num[0, 0] == 0.:
+            return num, np.ones((1, 1))
         m = den[0, 0]
         return num/m, den/m
 
-- 
2.43.0


From 878dc54795e42be9ae5570ff7f09d931faa1b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:13 +0000
Subject: [PATCH 051/121] fix: detect left-over integrators numerically in the
 dc gain of State models

---
 harold/_system_funcs.py | 60 +++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index c8c4232..bbda23f 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -1,11 +1,10 @@
 from copy import deepcopy
-import warnings
 import numpy as np
 from numpy.linalg import cond, eig, norm
 from numpy import array, flipud, fliplr, eye, zeros
 from numpy.random import rand
 from scipy.linalg import (solve, svdvals, qr, block_diag,
-                          hessenberg, matrix_balance, LinAlgError)
+                          hessenberg, matrix_balance)
 from ._aux_linalg import haroldsvd, matrix_slice, e_i
 from ._classes import State, Transfer, transfer_to_state
 from ._arg_utils import _check_for_state_or_transfer
@@ -547,42 +546,27 @@ def dcgain(self):
     if self._isgain:
         return self.d
 
-    # First try if A is not singular
-    try:
-
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            aa, bb, cc = _minimal_realization_state(self.a, self.b, self.c)
-            R = cc @ solve(np.eye(aa.shape[0]) - aa if self._dt else -aa, bb)
-            R[R > 1/np.spacing(1.)] = np.inf
-            return R + self.d
-
-    except LinAlgError:
-        # Maybe single channel subsystems would remove singularities
-        if self._isSISO:
-            return np.inf
-
-        R = np.empty_like(self.d)
-        for c in range(self._m):
-            for r in range(self._p):
-                aa, bb, cc = _minimal_realization_state(self.a,
-                                                        self.b[:, [c]],
-                                                        self.c[[r], :])
-                # try again
-                if self._dt:
-                    # -(zI - A) at z=1
-                    aa -= np.eye(aa.shape[0])
-                try:
-                    with warnings.catch_warnings():
-                        warnings.simplefilter("ignore")
-                        val = cc @ solve(-aa, bb)
-                        if abs(val) > 1/np.spacing(1.):
-                            val = np.inf
-                        R[r, c] = val
-                except LinAlgError:
-                    # OK fine
-                    R[r, c] = np.inf
-        return R + self.d
+    # Hidden integrators of a channel are not seen at that channel
+    R = np.empty_like(self.d)
+    tol = 100*self._n*np.spacing(norm(self.a, 2))
+    for c in range(self._m):
+        for r in range(self._p):
+            aa, bb, cc = _minimal_realization_state(self.a,
+                                                    self.b[:, [c]],
+                                                    self.c[[r], :])
+            n = aa.shape[0]
+            if n == 0:
+                R[r, c] = 0.
+                continue
+            # (zI - A) at z=1 or (sI - A) at s=0
+            aa = np.eye(n) - aa if self._dt else -aa
+            sv = svdvals(aa)
+            if sv[-1] <= tol:
+                R[r, c] = np.inf
+            else:
+                R[r, c] = (cc @ solve(aa, bb)).item()
+
+    return R + self.d
 
 
 setattr(State, 'dcgain', dcgain)
-- 
2.43.0


From c847367fde3b29571968c1fc0ad976e751b504d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:13 +0000
Subject: [PATCH 052/121] fix: accept initial conditions of single state models

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7901fe6..46294af 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -66,7 +66,7 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
         if isinstance(sys, Transfer):
             raise ValueError('Transfer models can\'t have initial conditions '
                              'set.')
-        x0 = np.asarray(x0, dtype=float).squeeze()
+        x0 = np.atleast_1d(np.asarray(x0, dtype=float).squeeze())
         if x0.ndim > 1:
             raise ValueError('Initial condition can only be a 1D array.')
         else:
-- 
2.43.0


From c016e192c4ed48ddd33064b30b36dd5f19f0b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:17 +0000
Subject: [PATCH 053/121] fix: simulate input sequences with a single sample

---
 harold/_time_domain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 46294af..c552bec 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -85,7 +85,10 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
     n, m = sys.NumberOfStates, sys.shape[1]
 
     is_discrete = sys.SamplingSet == 'Z'
-    u = np.asarray(u, dtype=float).squeeze()
+    u = np.asarray(u, dtype=float)
+    # Rows are samples unless it is a single input given as a row
+    if u.ndim != 2 or m == 1:
+        u = np.atleast_1d(u.squeeze())
     if u.ndim == 1:
         u = u[:, None]
 
-- 
2.43.0


From b86c09570581c5405c94770c1bc27a72d527bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:22 +0000
Subject: [PATCH 054/121] fix: check the time increments of simulations
 relative to their size

---
 harold/_time_domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index c552bec..bf01221 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -452,11 +452,11 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-        if not np.allclose(t_diff, t_diff[0]) or not t_diff[0] > 0.:
+        if not np.allclose(t_diff, t_diff[0], atol=0.) or not t_diff[0] > 0.:
             raise ValueError('Time array should be equally spaced and '
                              'increasing.')
 
-        if isdiscrete and not np.isclose(dt, t_diff[0]):
+        if isdiscrete and not np.isclose(dt, t_diff[0], atol=0.):
             raise ValueError('Time array increment {} is not equal to the'
                              ' model sampling period {}.'.format(t_diff[0],
                                                                  dt))
@@ -495,7 +495,7 @@ def _check_custom_time_input(t):
                          'Difference of the first two samples t1 - t0 = {}'
                          ''.format(dt))
     # np.diff is somewhat slower than the diff of the views
-    if not np.allclose(t[1:] - t[:-1], dt):
+    if not np.allclose(t[1:] - t[:-1], dt, atol=0.):
         raise ValueError('Supplied time array is not numerically equally '
                          'spaced (checked via numpy.allclose).')
 
-- 
2.43.0


From 377d2f6d658b9c886bd1ea5208668ca532aca5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:27 +0000
Subject: [PATCH 055/121] fix: automatic time grid with negative real discrete
 poles on or outside the unit circle

---
 harold/_time_domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index bf01221..c8080ca 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -331,14 +331,16 @@ def _compute_tfinal_and_dt(sys, is_step=True):
         p_u, p = p[m_u], p[~m_u]
         if p_u.size > 0:
             m_u = (p_u.real < 0) & (np.abs(p_u.imag) < sqrt_eps)
-            t_emp = np.max(log_decay_percent / np.abs(np.log(p_u[~m_u])/dt))
+            t_emp = np.max(log_decay_percent / np.abs(np.log(p_u[~m_u])/dt),
+                           initial=0.)
             tfinal = max(tfinal, t_emp)
 
         # zero - negligible effect on tfinal
         m_z = np.abs(p) < sqrt_eps
         p = p[~m_z]
         # Negative reals- treated as oscillary mode
-        m_nr = (p.real < 0) & (np.abs(p.imag) < sqrt_eps)
+        m_nr = (p.real < 0) & (np.abs(p.imag) < sqrt_eps) & \
+            (np.abs(p) < 1 - sqrt_eps)
         p_nr, p = p[m_nr], p[~m_nr]
         if p_nr.size > 0:
             t_emp = np.max(log_decay_percent / np.abs((np.log(p_nr)/dt).real))
-- 
2.43.0


From 733398d9a83e9d92d344d910bbbd416fd5f1611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:32 +0000
Subject: [PATCH 056/121] fix: automatic time grid of discrete models with long
 sampling periods

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index c8080ca..a28e3ac 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -363,7 +363,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
             tfinal = tfinal * 5
 
         # Make tfinal an integer multiple of dt
-        num_samples = tfinal // dt
+        num_samples = max(tfinal // dt, min_points_z)
         if num_samples > max_points_z:
             tfinal = dt * max_points_z
         else:
-- 
2.43.0


From 99f3ffc7d8cd91f8d9f69f71221e9dc66d391fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:59 +0000
Subject: [PATCH 057/121] fix: drop leading zeros in haroldlcm arguments

---
 harold/_polynomial_ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 9e662ab..95c8305 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -77,6 +77,8 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
         raise ValueError('Input arrays must be 1D.')
     if not all([x.size > 0 for x in args]):
         raise ValueError('Empty arrays are not allowed.')
+    # Leading zeros don't count for the degrees
+    args = [np.trim_zeros(a, 'f') if np.any(a) else a for a in args]
 
     # All scalars
     if all([x.size == 1 for x in args]):
-- 
2.43.0


From f95e66b1e42b05ddab6fad49314c072bae86f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:02 +0000
Subject: [PATCH 058/121] fix: greatest common divisor with a constant
 polynomial is one

---
 harold/_polynomial_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 95c8305..237eb7f 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -245,8 +245,8 @@ def haroldgcd(*args):
     if n == 0:
         return np.array([1])
 
-    if n > 0 and p == 0:
-        return arr_args.pop(max_degree_index)
+    if n > 0 and np.min(degree_list) == 0:
+        return np.array([1])
 
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
-- 
2.43.0


From 504e4d1c0aa8598d8642773b1a3e7770f57114fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:06 +0000
Subject: [PATCH 059/121] fix: accept lists and zero polynomials in
 haroldpolymul

---
 harold/_polynomial_ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 237eb7f..0c0bc72 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -437,14 +437,14 @@ def haroldpolymul(*args, trim_zeros=True):
     """
 
     if trim_zeros:
-        trimmedargs = [np.trim_zeros(x.flatten(), 'f') for x in args]
+        trimmedargs = [np.trim_zeros(np.ravel(x), 'f') for x in args]
     else:
-        trimmedargs = args
+        trimmedargs = [np.ravel(x) for x in args]
 
     p = trimmedargs[0]
 
     for x in trimmedargs[1:]:
-        if x.size == 0:  # it was all zeros
+        if p.size == 0 or x.size == 0:  # it was all zeros
             p = []
             break
         p = np.convolve(p, x)
-- 
2.43.0


From de3f2f7a636bcbccf2121568b9e2e9ec926b2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:09 +0000
Subject: [PATCH 060/121] fix: divide polynomials with leading zeros

---
 harold/_polynomial_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 0c0bc72..e375507 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -486,6 +486,7 @@ def haroldpolydiv(dividend, divisor):
 
     """
     h_factor, h_remainder = (np.trim_zeros(x, 'f') for x
-                             in sig.deconvolve(dividend, divisor))
+                             in sig.deconvolve(dividend,
+                                               np.trim_zeros(divisor, 'f')))
 
     return h_factor, h_remainder
-- 
2.43.0


From 6f63fe3f0b7d864a02eb62cf81227d7c55891eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:19 +0000
Subject: [PATCH 061/121] fix: integer right hand sides in the Lyapunov solvers

---
 harold/_solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index bcdf78e..38581c5 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -203,7 +203,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -365,7 +365,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -528,7 +528,7 @@ def _solve_continuous_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -653,7 +653,7 @@ def _solve_discrete_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
-- 
2.43.0


From 1091ecf7fbc920ffb6c3dff392fbcdce797244c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:22 +0000
Subject: [PATCH 062/121] fix: do not overwrite the arguments of the
 generalized discrete Lyapunov solver

---
 harold/_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index 38581c5..3ac0f13 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -349,7 +349,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     if A.shape[0] < 3:
         return mini_sylvester(A, E, Y)
 
-    As, Es, Q, Z = qz(A, E, overwrite_a=True, overwrite_b=True)
+    As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = As.shape[0]
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
-- 
2.43.0


From 8979e0e8b9fc342b6bc58b92bd61aaf44c2987e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:33 +0000
Subject: [PATCH 063/121] fix: return the row compressed controllability matrix
 in its own coordinates

The right factor of the SVD is already transposed.
---
 harold/_kalman_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index e2d86a8..f46ff8c 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -53,7 +53,7 @@ def controllability_matrix(G, compress=False):
 
     if compress:
         T, S, V, r = haroldsvd(Cc, also_rank=True)
-        return S.dot(V.T), T, r
+        return S.dot(V), T, r
 
     T, *_, r = haroldsvd(Cc, also_rank=True)
     return Cc, T, r
-- 
2.43.0


From be53880b6cfc454e67a285a175b1e9fe9feee4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:37 +0000
Subject: [PATCH 064/121] fix: return the column compressing transformation
 from observability_matrix

The transposed right factor was returned unless compress was set, and
kalman_decomposition missed unobservable modes because of it.
---
 harold/_kalman_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f46ff8c..f04bb67 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -106,8 +106,8 @@ def observability_matrix(G, compress=False):
         T, S, V, r = haroldsvd(Co, also_rank=True)
         return T.dot(S), V.T, r
 
-    *_, T, r = haroldsvd(Co, also_rank=True)
-    return Co, T, r
+    *_, V, r = haroldsvd(Co, also_rank=True)
+    return Co, V.T, r
 
 
 def kalman_decomposition(G, compute_T=False, output='system',
-- 
2.43.0


From 4cf6db152c757e972110ffcbb6be588ae2ee48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:40 +0000
Subject: [PATCH 065/121] fix: accept nested lists in the matrix tuples of the
 Kalman functions

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5711f16..475bc6f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3367,7 +3367,7 @@ def _state_or_abcd(arg, n=4):
             return system_or_not, (None, None, None, arg[0])
         else:
             # Start with squareness of a - always given
-            a = arg[0]
+            a = np.atleast_2d(arg[0])
             _assert_square(a)
 
             if n == 1:
-- 
2.43.0


From f8c3b2b748d1d240afe03c7d09cb438b0720962b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:43 +0000
Subject: [PATCH 066/121] fix: return the transformation of static gains from
 kalman_decomposition

---
 harold/_kalman_ops.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f04bb67..021cad2 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -184,10 +184,8 @@ def kalman_decomposition(G, compute_T=False, output='system',
 
     # If a static gain, then skip and return the argument
     if G._isgain:
-        if output == 'matrices':
-            return G.matrices
-
-        return G
+        Gk = G.matrices if output == 'matrices' else G
+        return (Gk, np.eye(0)) if compute_T else Gk
 
     # TODO: This is an unreliable test anyways but at least check
     # which rank drop of Cc, Co is higher and start from that
-- 
2.43.0


From 6a6de885543edcf48c693fe05a2139ad9e3895fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:16 +0000
Subject: [PATCH 067/121] fix: isolate unobservable modes that are coupled to
 controllable ones

kalman_decomposition looked at the uncontrollable block alone and hence
missed the unobservable modes with a component in the controllable block.
---
 harold/_kalman_ops.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index 021cad2..b023d59 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -222,6 +222,14 @@ def kalman_decomposition(G, compute_T=False, output='system',
         _, To_co, _ = observability_matrix((aco, cco))
         _, To_uco, _ = observability_matrix((auco, cuco))
         To = block_diag(To_co, To_uco)
+        # The unobservable directions outside of the controllable subspace
+        # might also have components in it, place these at the end
+        _, V, ro = observability_matrix(G)
+        V = solve(Tc, V)
+        u, s, v, q = haroldsvd(V[r:, ro:], also_rank=True, rank_tol=1e-8)
+        if q > 0:
+            To[:r, -q:] = V[:r, ro:] @ v[:q, :].T / np.diag(s)[:q]
+            To[r:, r:] = np.roll(u, -q, axis=1)
     else:
         if not is_kalman_observable((ac, cc)):
             _, To, r = observability_matrix((ac, cc))
-- 
2.43.0


From 672dc9479ed662a208339ff57b8d6d72811c69a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:26 +0000
Subject: [PATCH 068/121] fix: name the right array when the output array does
 not fit

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 475bc6f..95027d1 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3405,7 +3405,7 @@ def _state_or_abcd(arg, n=4):
                 if nc != a.shape[0]:
                     raise ValueError('c array should have same number of cols'
                                      'as a. a is {} but c is {}'
-                                     ''.format(a.shape, b.shape))
+                                     ''.format(a.shape, c.shape))
                 return system_or_not, (a, c)
     else:
         raise ValueError('The argument is neither a tuple nor a State() '
-- 
2.43.0


From 9f79ee5c9f0711c17ef69bafe5f6160a431354c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:02 +0000
Subject: [PATCH 069/121] fix: keep the feedthrough in hessenberg_realization

---
 harold/_system_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index bbda23f..cc0fac3 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -187,9 +187,9 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
                 return (*G, eye(0)) if compute_T else G
             return (G, eye(0)) if compute_T else G
         if type(G).__name__ == 'Transfer':
-            a, b, c, _ = transfer_to_state(G, output='matrices')
+            a, b, c, d = transfer_to_state(G, output='matrices')
         else:
-            a, b, c = G.a, G.b, G.c
+            a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
@@ -212,7 +212,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
 
     if output == 'system':
         if in_is_sys:
-            Gh = State(ah, bh, ch, dt=G.SamplingPeriod)
+            Gh = State(ah, bh, ch, d, dt=G.SamplingPeriod)
         else:
             Gh = State(ah, bh, ch)
         if compute_T:
-- 
2.43.0


From cc699c878b24ae9f77cbd6d8e16d36b4d35f5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:06 +0000
Subject: [PATCH 070/121] fix: transform the input matrix to Hessenberg
 coordinates

The second transformation leaves only the first column of the compressed
matrix unchanged.
---
 harold/_system_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index cc0fac3..250436e 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -197,7 +197,9 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     qq, bh = qr(b)
     ab, cb = qq.T @ a @ qq, c @ qq
     ah, qh = hessenberg(ab, calc_q=True)
-    ch = cb @ qh
+    bh, ch = qh.T @ bh, cb @ qh
+    # The first column stays compressed
+    bh[1:, 0] = 0.
 
     if compute_T:
         T = qq @ qh
-- 
2.43.0


From 72009e2bfd9dc64474650d1d48126e2b0729ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:09 +0000
Subject: [PATCH 071/121] fix: return the inverted Hessenberg transformation
 with flipped columns

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 250436e..0441d4e 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -207,7 +207,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     if invert:
         ah, bh, ch = fliplr(flipud(ah)), flipud(bh), fliplr(ch)
         if compute_T:
-            T = flipud(T)
+            T = fliplr(T)
 
     if form == 'o':
         ah, bh, ch = ah.T, ch.T, bh.T
-- 
2.43.0


From fff17923134b5f70e412f6b7295a7f5ad22ee3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:07 +0000
Subject: [PATCH 072/121] fix: return gains for transfers without states from
 hessenberg_realization

A transfer whose poles are all cancelled has no state matrix to transform.
---
 harold/_system_funcs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 0441d4e..d4ae783 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -181,15 +181,14 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     else:
         _check_for_state_or_transfer(G)
         in_is_sys = True
+        if type(G).__name__ == 'Transfer' and not G._isgain:
+            G = transfer_to_state(G)
         if G._isgain:
             if output != 'system':
                 G = transfer_to_state(G, output='matrices')[:3]
                 return (*G, eye(0)) if compute_T else G
             return (G, eye(0)) if compute_T else G
-        if type(G).__name__ == 'Transfer':
-            a, b, c, d = transfer_to_state(G, output='matrices')
-        else:
-            a, b, c, d = G.matrices
+        a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
-- 
2.43.0


From b87c1f961d0d1681d20799ac1380589d26ee9e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:03 +0000
Subject: [PATCH 073/121] fix: compute the H2-norm of discrete models with
 feedthrough

The impulse response energy is infinite only for continuous models.
---
 harold/_system_props.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 28255fc..f701b82 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -71,7 +71,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
     # 2-norm
     if p == 2:
         # Handle trivial infinities
-        if not np.allclose(T.d, np.zeros_like(T.d)) or (not T._isstable):
+        if not T._isstable:
+            return np.Inf
+        if T.SamplingSet == 'R' and not np.allclose(d, np.zeros_like(d)):
             return np.Inf
 
         if T.SamplingSet == 'R':
-- 
2.43.0


From f800edd871a1cb1497f965ee8727762327c78eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:07 +0000
Subject: [PATCH 074/121] fix: compute the norms of static gains

---
 harold/_system_props.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index f701b82..049b14d 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -68,6 +68,14 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
     T = transfer_to_state(G) if isinstance(G, Transfer) else G
     a, b, c, d = T.matrices
 
+    # Static gains, no dynamics to look at
+    if T._isgain:
+        if p == 2:
+            if T.SamplingSet == 'R' and np.any(d):
+                return np.Inf
+            return norm(d)
+        return norm(d, ord=2)
+
     # 2-norm
     if p == 2:
         # Handle trivial infinities
-- 
2.43.0


From 0b95cedc4cac93aa3c886d31916a1737697031ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:11 +0000
Subject: [PATCH 075/121] fix: compute the H-infinity norm of discrete models

The Hamiltonian test is only valid on the imaginary axis, hence map the
unit circle onto it first.
---
 harold/_system_props.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 049b14d..0fe74ee 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -5,7 +5,7 @@ from scipy.linalg import solve, norm, eigvals, qr
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
-from ._classes import Transfer, transfer_to_state
+from ._classes import State, Transfer, transfer_to_state
 from ._solvers import lyapunov_eq_solver
 from ._arg_utils import _check_for_state_or_transfer
 
@@ -95,6 +95,15 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if not T._isstable:
             return np.Inf
 
+        # The bilinear map z = (1+s)/(1-s) doesn't change the norm
+        if T.SamplingSet == 'Z':
+            ap = a + np.eye(a.shape[0])
+            T = State(solve(ap, a - np.eye(a.shape[0])),
+                      np.sqrt(2) * solve(ap, b),
+                      np.sqrt(2) * solve(ap.T, c.T).T,
+                      d - c @ solve(ap, b))
+            a, b, c, d = T.matrices
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From dff115253a38b7d858e6384c1b77441223aa103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:39 +0000
Subject: [PATCH 076/121] fix: start the H-infinity iteration from a nonzero
 lower bound

The response might be zero both at zero frequency and at the least damped
pole. If it is zero at more frequencies than a nonzero model can have then
so is the norm.
---
 harold/_system_props.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 0fe74ee..fff4ba5 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -119,16 +119,19 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         else:
             low_damp_fr = np.min(np.abs(T.poles))
 
-        f, w = frequency_response(T, w=[0, low_damp_fr], w_unit='rad/s',
+        # A few more frequencies in case these happen to be blocking zeros
+        w = low_damp_fr * np.linspace(1, 2, a.shape[0] + 1)
+        f, w = frequency_response(T, w=np.append(0., w), w_unit='rad/s',
                                   output_unit='rad/s')
         if T._isSISO:
             lb = np.max(np.abs(f))
         else:
-            # Only evaluated at two frequencies, 0 and wb
             lb = np.max(norm(f, ord=2, axis=(0, 1)))
 
         # Finally
         gamma_lb = np.max([lb, norm(d, ord=2)])
+        if gamma_lb == 0.:
+            return 0.
 
         # Start a for loop with a definite end! Convergence is quartic!!
         for x in range(51):
-- 
2.43.0


From 714d6e4becd591b133fe1ca47cbc2314b3178b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:42 +0000
Subject: [PATCH 077/121] fix: avoid inverting nearly singular matrices in the
 H-infinity norm

When the lower bound comes from the feedthrough matrix the Hamiltonian was
formed with an almost singular inverse and the iteration stopped early.
Use the generalized eigenvalues of the extended pencil instead.
---
 harold/_system_props.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index fff4ba5..129e106 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -1,7 +1,7 @@
 import numpy as np
-from numpy import block
+from numpy import block, eye, zeros
 from numpy.linalg.linalg import _makearray
-from scipy.linalg import solve, norm, eigvals, qr
+from scipy.linalg import block_diag, solve, norm, eigvals, qr
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
@@ -133,6 +133,8 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if gamma_lb == 0.:
             return 0.
 
+        n, (p_out, m) = a.shape[0], d.shape
+
         # Start a for loop with a definite end! Convergence is quartic!!
         for x in range(51):
 
@@ -140,14 +142,12 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             test_gamma = gamma_lb * (1 + 2*np.sqrt(np.spacing(1.)))
 
             # (Step b2)
-            R = d.T @ d - test_gamma**2 * np.eye(d.shape[1])
-            S = d @ d.T - test_gamma**2 * np.eye(d.shape[0])
-            # TODO : Implement the result of Benner for the Hamiltonian later
-            mat = block([[a - b @ solve(R, d.T) @ c,
-                          -test_gamma * b @ solve(R, b.T)],
-                         [test_gamma * c.T @ solve(S, c),
-                          -(a - b @ solve(R, d.T) @ c).T]])
-            eigs_of_H = eigvals(mat)
+            mat = block([[a, zeros((n, n)), b, zeros((n, p_out))],
+                         [zeros((n, n)), -a.T, zeros((n, m)), -c.T],
+                         [c, zeros((p_out, n)), d, -test_gamma*eye(p_out)],
+                         [zeros((m, n)), b.T, -test_gamma*eye(m), d.T]])
+            eigs_of_H = eigvals(mat, block_diag(eye(2*n), zeros((m+p_out,)*2)))
+            eigs_of_H = eigs_of_H[np.isfinite(eigs_of_H)]
 
             # (Step b3)
             im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol]
-- 
2.43.0


From 7457aeca311eefed345265fd7424bf06bb7d7892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:29 +0000
Subject: [PATCH 078/121] fix: stop the H-infinity iteration when there is no
 progress

The distance of the eigenvalues to the imaginary axis is now compared with
the size of the pencil, and a lone crossing frequency no longer ends up with
the maximum of an empty array or an undefined upper bound.
---
 harold/_system_props.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 129e106..c1b5c31 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -150,24 +150,30 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             eigs_of_H = eigs_of_H[np.isfinite(eigs_of_H)]
 
             # (Step b3)
-            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol]
+            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <=
+                                eig_tol * max(1., norm(mat, 1))]
             # If none left break
             if im_eigs.size == 0:
-                gamma_ub = test_gamma
                 break
             else:
                 # Take the ones with positive imag part
                 w_i = np.sort(np.unique(np.abs(im_eigs.imag)))
                 # Evaluate the cubic interpolant
+                w_i = np.r_[0., w_i, 2*w_i[-1]]
                 m_i = (w_i[1:] + w_i[:-1]) / 2
                 f, w = frequency_response(T, w=m_i, w_unit='rad/s',
                                           output_unit='rad/s')
                 if T._isSISO:
-                    gamma_lb = np.max(np.abs(f))
+                    lb = np.max(np.abs(f))
                 else:
-                    gamma_lb = np.max(norm(f, ord=2, axis=(0, 1)))
+                    lb = np.max(norm(f, ord=2, axis=(0, 1)))
 
-        return (gamma_lb + gamma_ub)/2
+                # No progress, hence test_gamma is an upper bound
+                if lb <= test_gamma:
+                    break
+                gamma_lb = lb
+
+        return (gamma_lb + test_gamma)/2
 
 
 def controllability_indices(A, B, tol=None):
-- 
2.43.0


From 0fdd82230c9b7e880f7fd7cab2a9e57208a180f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:37 +0000
Subject: [PATCH 079/121] fix: accept only the documented weighting choices in
 lqr

Parts of the words passed the check and mixed case names were accepted but
selected the state weighting.
---
 harold/_static_ctrl_design.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e88c030..826c7b1 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -79,7 +79,8 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         raise ValueError('State feedback design requires dynamic system'
                          ' representations. The argument is a static gain.')
 
-    if weight_on.lower() not in ('state, output'):
+    weight_on = weight_on.lower()
+    if weight_on not in ('state', 'output'):
         raise ValueError('"weight_on" keyword can either be "state" or'
                          ' "output" but received "{}"'.format(weight_on))
 
-- 
2.43.0


From e571ceee34e108ad93e551627ad79eebe7bc17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:41 +0000
Subject: [PATCH 080/121] fix: accept array_like cross weights in lqr

---
 harold/_static_ctrl_design.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index 826c7b1..c058d4f 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -123,6 +123,7 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         Q, S, _, R = matrix_slice(fact, (m, m), corner='se')
         X = func(a=T.a, b=T.b, q=Q, r=R, s=S)
     else:
+        S = S if S is None else array(S, dtype=float, ndmin=2)
         X = func(a=T.a, b=T.b, q=Q, r=R, s=S)
 
     if T.SamplingSet == 'R':
-- 
2.43.0


From 5f46fb0b12a1b738a8295b20f6a5c2a30366a058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:44 +0000
Subject: [PATCH 081/121] fix: accept complex conjugate locations in ackermann

---
 harold/_static_ctrl_design.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index c058d4f..b328439 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -168,9 +168,11 @@ def ackermann(G, loc):
         raise ValueError('Ackermann method is only applicable to single input'
                          ' systems.')
 
-    loc = array(loc, dtype=float)
+    loc = np.atleast_1d(array(loc, dtype=complex))
     if loc.ndim > 1:
         raise ValueError('Pole location array must be 1D.')
+    if not np.allclose(poly(loc).imag, 0.):
+        raise ValueError('Complex pole locations must be conjugate pairs.')
 
     Cc, _, r = controllability_matrix((A, B), compress=False)
     # if not controllable
-- 
2.43.0


From 0026d2187bdca24a7dd2f4dd70ab4c6894f0c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:47 +0000
Subject: [PATCH 082/121] fix: refuse a wrong number of pole locations in
 ackermann

---
 harold/_static_ctrl_design.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index b328439..e9c31dc 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -173,6 +173,10 @@ def ackermann(G, loc):
         raise ValueError('Pole location array must be 1D.')
     if not np.allclose(poly(loc).imag, 0.):
         raise ValueError('Complex pole locations must be conjugate pairs.')
+    if loc.size != n:
+        raise ValueError('There should be as many pole locations as the'
+                         ' number of states but got {} locations for {}'
+                         ' states.'.format(loc.size, n))
 
     Cc, _, r = controllability_matrix((A, B), compress=False)
     # if not controllable
-- 
2.43.0


From 30a3d64c5fc633f778266666ffc6c5364c499ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:49 +0000
Subject: [PATCH 083/121] fix: return null space vectors from haroldker

The right factor of the SVD is conjugate transposed, so the basis are the
last rows of it.
---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 540bda2..2872b1b 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -142,7 +142,7 @@ def haroldker(N, side='right'):
         # If full rank and not fat, return trivial zero
         return np.zeros((A.shape[1], 1))
     else:
-        return V[:, r:]
+        return V[r:, :].conj().T
 
 
 def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
-- 
2.43.0


From a8567563a2839af04283927b0fcc3214939077f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:53 +0000
Subject: [PATCH 084/121] fix: return the null space of scalar zero from
 haroldker

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 2872b1b..0708db7 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -132,7 +132,7 @@ def haroldker(N, side='right'):
 
     m, n = A.shape
 
-    if A.size <= 1:
+    if A.size == 0:
         # don't bother
         return np.array([[0]])
 
-- 
2.43.0


From d6d834e3283bf51e03cd03de0b6e222ba5103110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:56 +0000
Subject: [PATCH 085/121] fix: use the number of rows of the north-east corner
 in matrix_slice

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 0708db7..7ae55bf 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -434,7 +434,7 @@ def matrix_slice(M, corner_shape, corner='nw'):
     if corner == 'nw':
         p, m = z, w
     elif corner == 'ne':
-        p, m = x, y - w
+        p, m = z, y - w
     elif corner == 'sw':
         p, m = x - z, w
     else:
-- 
2.43.0


From cbfe6ee0c6cf4cdc55cbdbd557426497eee0571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:32 +0000
Subject: [PATCH 086/121] fix: pair repeated and perturbed complex numbers

The sign pattern walk only worked if the real parts of all the pairs were
exactly equal or distinct. It ran out of the array, or returned pairs that
are not in the argument, for numbers that have no conjugates.
---
 harold/_aux_linalg.py | 74 +++++++++++--------------------------------
 1 file changed, 19 insertions(+), 55 deletions(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 7ae55bf..8703f9a 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -223,70 +223,34 @@ def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
                          'be paired!')
     else:
 
-        # Still doesn't distinguish whether they are pairable or not.
-        sorted_array_r_j = np.sort_complex(array_j_ent)
-        sorted_array_r, sorted_array_j = return_imre(sorted_array_r_j)
+        # Still doesn't distinguish whether they are pairable or not. Hence
+        # match the ones with negative imaginary parts with the conjugates of
+        # the remaining ones one by one.
+        sorted_array_r_j = np.sort_complex(array_j_ent[array_j_ent.imag < 0.])
+        candidates = array_j_ent[array_j_ent.imag > 0.].conj()
 
-        # Since the entries are now sorted and appear as pairs,
-        # when summed with the next element the result should
-        # be very small
+        if sorted_array_r_j.size != candidates.size:
+            raise ValueError('Pairing failed for the complex parts.')
 
-        if any(np.abs(sorted_array_r[:-1:2] - sorted_array_r[1::2]) > tol):
-            # if any difference is bigger than the tolerance
-            raise ValueError('Pairing failed for the real parts.')
-
-        # Now we have sorted the real parts and they appear in pairs.
-        # Next, we have to get rid of the repeated imaginary, if any,
-        # parts in the  --... , ++... pattern due to sorting. Note
-        # that the non-repeated imaginary parts now have the pattern
-        # -,+,-,+,-,... and so on. So we can check whether sign is
-        # not alternating for the existence of the repeatedness.
-
-        def repeat_sign_test(myarr, mylen):
-            # Since we separated the zero imaginary parts now any sign
-            # info is either -1 or 1. Hence we can test whether -1,1
-            # pattern is present. Otherwise we count how many -1s occured
-            # double it for the repeated region. Then repeat until we
-            # we exhaust the array with a generator.
-
-            x = 0
-            myarr_sign = np.sign(myarr).astype(int)
-            while x < mylen:
-                if np.array_equal(myarr_sign[x:x+2], [-1, 1]):
-                    x += 2
-                elif np.array_equal(myarr_sign[x:x+2], [1, -1]):
-                    myarr[x:x+2] *= -1
-                    x += 2
-                else:
-                    still_neg = True
-                    xl = x+2
-                    while still_neg:
-                        if myarr_sign[xl] == 1:
-                            still_neg = False
-                        else:
-                            xl += 1
-
-                    yield x, xl - x
-                    x += 2*(xl - x)
-
-        for ind, l in repeat_sign_test(sorted_array_j, num_j_ent):
-            indices = np.dstack(
-                        (range(ind, ind+l), range(ind+2*l-1, ind+l-1, -1))
-                        )[0].reshape(1, -1)
-
-            sorted_array_j[ind:ind+2*l] = sorted_array_j[indices]
-
-        if any(np.abs(sorted_array_j[:-1:2] + sorted_array_j[1::2]) > tol):
+        for entry in sorted_array_r_j:
+            ind = np.argmin(np.abs(candidates - entry))
+            diff_r, diff_j = return_imre(candidates[ind] - entry)
             # if any difference is bigger than the tolerance
-            raise ValueError('Pairing failed for the complex parts.')
+            if np.abs(diff_r) > tol:
+                raise ValueError('Pairing failed for the real parts.')
+            if np.abs(diff_j) > tol:
+                raise ValueError('Pairing failed for the complex parts.')
+            candidates = np.delete(candidates, ind)
+
+        sorted_array_r, sorted_array_j = return_imre(sorted_array_r_j)
 
         # Finally we have a properly sorted pairs of complex numbers
         # We can now combine the real and complex parts depending on
         # the choice of positives_first keyword argument
 
         # Force entries to be the same for each of the pairs.
-        sorted_array_j = np.repeat(sorted_array_j[::2], 2)
-        paired_cmplx_part = np.repeat(sorted_array_r[::2], 2).astype(complex)
+        sorted_array_j = np.repeat(sorted_array_j, 2)
+        paired_cmplx_part = np.repeat(sorted_array_r, 2).astype(complex)
 
         if positives_first:
             sorted_array_j[::2] *= -1
-- 
2.43.0


From bbadce587e87e622d369fa9565e1965ebdf365b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:39 +0000
Subject: [PATCH 087/121] fix: honour the pole specification of single state
 random models

The pole of a single state model ignored the probabilities and might end up
at the origin though a stable model is asked for.
---
 harold/_classes.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 95027d1..b1df025 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3492,9 +3492,6 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
     # Static model
     if n == 0:
         return State(rand(p, m), dt=dt)
-    elif n == 1:
-        a, b, c, d = rand(1), rand(1, m), rand(p, 1), rand(p, m)
-        return State(-a, b, c, d, dt=dt)
 
     # Get random pole types
     choose_from = [0, 1] if stable else [0, 1, 2, 3]
-- 
2.43.0


From f5a23d88c0229b6f52adb7aca077175403c0f550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:42 +0000
Subject: [PATCH 088/121] fix: do not complete random models with real poles of
 zero probability

If a pair does not fit to the last state, an integrator is used when only
those are asked for.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index b1df025..11d2af2 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3535,7 +3535,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
             break
 
     # Complex didn't fit, fill the remaining
-    if diag_i == n-1:
+    if diag_i == n-1 and not (not stable and pdist[0] == 0 and pdist[2] > 0):
         ps = choice([1, -1], 1)
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
-- 
2.43.0


From 9d8c893b0ad21896034ff0fb760709c927227e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:55 +0000
Subject: [PATCH 089/121] fix: draw scalar signs for the poles of unstable
 random models

Complex pole pairs could not be written to the state matrix since the sign
was an array with a single element.
---
 harold/_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 11d2af2..1ae55d8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3503,7 +3503,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
         p_type = choice(choose_from, 1, replace=True, p=pdist)
         if p_type == 0:
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             a[diag_i, diag_i] = pr
             diag_i += 1
@@ -3511,7 +3511,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
         elif p_type == 1:
             if diag_i >= n-1:
                 break
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             pi = exp(exp(rand()))
             a[[diag_i, diag_i, diag_i+1, diag_i+1],
@@ -3536,7 +3536,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
     # Complex didn't fit, fill the remaining
     if diag_i == n-1 and not (not stable and pdist[0] == 0 and pdist[2] > 0):
-        ps = choice([1, -1], 1)
+        ps = choice([1, -1])
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
 
-- 
2.43.0


From 8083c98144e9aee7dee79a721b68ae056e445593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:20 +0000
Subject: [PATCH 090/121] fix: keep the low frequencies of the common grid of
 frequency plots

The points that are padded to the beginning of the grid were lost if also the
end of the grid was extended.
---
 harold/_frequency_domain_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c20b795..8d8dfbf 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -87,7 +87,7 @@ def _get_common_freq_grid(syslist):
             lw1 = np.log10(w[-1])
             samples = (5 if syslist[ind]._isgain else
                        int(np.ceil((lmaxw - lw1) * ppd)))
-            W[ind] = np.hstack([w,
+            W[ind] = np.hstack([W[ind],
                                 np.logspace(start=lw1,
                                             stop=lmaxw,
                                             num=samples)])
-- 
2.43.0


From 7bc84db661cf160dc6a9fadce9f66dc0c872e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:23 +0000
Subject: [PATCH 091/121] fix: use the frequency grid of each model in
 frequency plots

All models were drawn on the grid of the first one.
---
 harold/_frequency_domain_plots.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 8d8dfbf..2e2b400 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -177,18 +177,19 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
     for ind, (G, sty) in enumerate(zip(syslist, style)):
         # If multiple systems are given W is necessarily defined here.
+        wg = w
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wg = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wg /= 2*np.pi
 
         isDiscrete = True if G.SamplingSet == 'Z' else False
         if isDiscrete:
             dt = G.SamplingPeriod
             nyq = 1/(2*dt) if use_hz else np.pi/dt
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wg is not None:
+            fre, ww = frequency_response(G, wg, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
@@ -336,13 +337,14 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
 
     for ind, (G, sty) in enumerate(zip(syslist, style)):
         # If multiple systems are given W is necessarily defined here.
+        wg = w
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wg = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wg /= 2*np.pi
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wg is not None:
+            fre, ww = frequency_response(G, wg, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
-- 
2.43.0


From 963ad57fc6c94b82584ea78a1452a8f4ed48cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:26 +0000
Subject: [PATCH 092/121] fix: unwrap the phase of each channel separately in
 Bode plots

The channels of models with zero responses were unwrapped as a single curve
and the phase of the zero responses was left uninitialised.
---
 harold/_frequency_domain_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 2e2b400..5d506f0 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -199,8 +199,10 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
         # Mask NaN values if any
         if np.isnan(fre).any():
-            pha = np.empty_like(fre, dtype=float)
-            pha[~np.isnan(fre)] = np.unwrap(np.angle(fre[~np.isnan(fre)]))
+            pha = np.full(fre.shape, np.nan)
+            for i in np.ndindex(fre.shape[:-1]):
+                ok = ~np.isnan(fre[i])
+                pha[i][ok] = np.unwrap(np.angle(fre[i][ok]))
         else:
             pha = np.unwrap(np.angle(fre))
         if use_degree:
-- 
2.43.0


From 8c9a9625fc8d32503ab8f4dcf725b7013eeaed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:50 +0000
Subject: [PATCH 093/121] fix: hide negative frequencies in Nyquist plots when
 asked for

---
 harold/_frequency_domain_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 5d506f0..1124216 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -367,7 +367,8 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
                     idata = ii[row, col, :]
 
                 axs[row, col].plot(rdata, idata, '-')
-                axs[row, col].plot(rdata, -idata, '-.')
+                if negative_freqs:
+                    axs[row, col].plot(rdata, -idata, '-.')
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
-- 
2.43.0


From 527e21e93b47ed9f31004cf30ab6c5d135accfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:53 +0000
Subject: [PATCH 094/121] fix: use the given style in Nyquist and impulse
 response plots

---
 harold/_frequency_domain_plots.py |  5 +++--
 harold/_time_domain_plots.py      | 10 ++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 1124216..53cde8d 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -366,9 +366,10 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
                     rdata = rr[row, col, :]
                     idata = ii[row, col, :]
 
-                axs[row, col].plot(rdata, idata, '-')
+                axs[row, col].plot(rdata, idata, **{'linestyle': '-', **sty})
                 if negative_freqs:
-                    axs[row, col].plot(rdata, -idata, '-.')
+                    axs[row, col].plot(rdata, -idata,
+                                       **{**sty, 'linestyle': '-.'})
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index f057bc9..dfce3c7 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -186,14 +186,14 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys in syslist:
+    for sys, sty in zip(syslist, style):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
             if sys._isdiscrete:
-                axs[0, 0].step(tout, yout, where='post')
+                axs[0, 0].step(tout, yout, where='post', **sty)
             else:
-                axs[0, 0].plot(tout, yout)
+                axs[0, 0].plot(tout, yout, **sty)
 
             axs[0, 0].grid(visible=True)
         else:
@@ -207,7 +207,9 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
                 for col in range(ncols):
                     getattr(axs[row, col], ptype)(tout, yout[:, row, col]
                                                   if yout.ndim == 3
-                                                  else yout[:, row], **w_dict)
+                                                  else yout[:, row],
+                                                  **w_dict,
+                                                  **sty)
                     axs[row, col].grid(visible=True)
     axs[0, 0].set_xlim(left=0, right=tmin)
     fig.text(0, .5, 'Amplitude', ha='center', va='center', rotation='vertical')
-- 
2.43.0


From 7aad2bb6611c2fee440715905bc0fcadc99e6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:56 +0000
Subject: [PATCH 095/121] fix: repeat the style cycle when it is shorter than
 the list of models

The models beyond the number of styles were not drawn.
---
 harold/_frequency_domain_plots.py | 5 +++--
 harold/_time_domain_plots.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 53cde8d..d3f8c09 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -175,7 +176,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         wg = w
         if w is None and len(syslist) > 1:
@@ -337,7 +338,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         wg = w
         if w is None and len(syslist) > 1:
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index dfce3c7..46128c9 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -93,7 +94,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_step_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
@@ -186,7 +187,7 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
-- 
2.43.0


From 1cb74f828ff0e35a012a51e962f6de85804b531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:59 +0000
Subject: [PATCH 096/121] fix: draw the Nyquist frequency line also for styles
 with line properties

---
 harold/_frequency_domain_plots.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index d3f8c09..04c1265 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -228,15 +228,15 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
                 if isDiscrete:
                     label = f'sys_{ind}_in_{col}_out_{row}_mag_nyqline'
-                    axs[2*row, col].axvline(nyq, linestyle='dashed',
-                                            linewidth=2,
-                                            label=label,
-                                            **sty)
+                    axs[2*row, col].axvline(nyq, **{**sty,
+                                                    'linestyle': 'dashed',
+                                                    'linewidth': 2,
+                                                    'label': label})
                     label = f'sys_{ind}_in_{col}_out_{row}_phase_nyqline'
-                    axs[2*row+1, col].axvline(nyq, linestyle='dashed',
-                                              linewidth=2,
-                                              label=label,
-                                              **sty)
+                    axs[2*row+1, col].axvline(nyq, **{**sty,
+                                                      'linestyle': 'dashed',
+                                                      'linewidth': 2,
+                                                      'label': label})
 
                 axs[2*row, col].grid(True, which='both')
                 axs[2*row+1, col].grid(True, which='both')
-- 
2.43.0


From c3fbf98f233f01546c93897750dab0d6ef036a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:02 +0000
Subject: [PATCH 097/121] fix: do not change the given gridspec options in
 frequency plots

---
 harold/_frequency_domain_plots.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 04c1265..79c9189 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -154,8 +154,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -316,8 +315,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
-- 
2.43.0


From c62e9bcae68184bfe9b1a6358f7cf5f1e56f3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:05 +0000
Subject: [PATCH 098/121] fix: do not change the given gridspec options in time
 response plots

---
 harold/_time_domain_plots.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index 46128c9..495712e 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -71,8 +71,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
@@ -165,8 +164,7 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     if gridspec_kw is None:
         gridspec_kw = {'wspace': 0.5}
     else:
-        wspace = gridspec_kw.get('wspace', 0.5)
-        gridspec_kw['wspace'] = wspace
+        gridspec_kw = {'wspace': 0.5, **gridspec_kw}
 
     # MIMO plots needs a bit bigger figure, offer a saner default
     figsize = kwargs.pop('figsize', None)
-- 
2.43.0


From 072b1f9109eb1b2be8f8565f8daece8682a0dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:33 +0000
Subject: [PATCH 099/121] fix: return a copy of the given time samples from
 simulations

As documented, changing the returned array should not change the given one.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index a28e3ac..e8c37a4 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -450,7 +450,7 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
             u_samples = len(u)
             t = np.linspace(0, (u_samples-1)*dt, num=u_samples)
     else:
-        t = np.asarray(t, dtype=float).squeeze()
+        t = np.array(t, dtype=float).squeeze()
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-- 
2.43.0


From efeb55c727ba958c2be63ef10074108da79fe722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:08 +0000
Subject: [PATCH 100/121] fix: automatic time grid of discrete models with slow
 real poles

All real poles inside the unit circle were taken as integrators and did not
have any effect on the final time.
---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index e8c37a4..5c88d5a 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -346,7 +346,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
             t_emp = np.max(log_decay_percent / np.abs((np.log(p_nr)/dt).real))
             tfinal = max(tfinal, t_emp)
         # discrete integrators
-        m_int = (p.real - 1 < sqrt_eps) & (np.abs(p.imag) < sqrt_eps)
+        m_int = (np.abs(p.real - 1) < sqrt_eps) & (np.abs(p.imag) < sqrt_eps)
         p_int, p = p[m_int], p[~m_int]
         # pure oscillatory modes
         m_w = (np.abs(np.abs(p) - 1) < sqrt_eps)
-- 
2.43.0


From 70cddfce088ca80ec08e64c522c754990deaac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:49 +0000
Subject: [PATCH 101/121] fix: keep the automatic time grid of repeated
 imaginary poles

Repeated poles on the imaginary axis come out of the eigenvalue solver
with a small real part. They were taken as extremely slow exponentials,
so the automatic time step was thousands of seconds long or the response
overflowed. Compare the real part with the accuracy of the eigenvalue.
---
 harold/_time_domain.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 5c88d5a..6645978 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -379,6 +379,11 @@ def _compute_tfinal_and_dt(sys, is_step=True):
     # G = Transfer([1], [1,0,1]) gives zero sensitivity (bound by 1e-12)
     eig_sens = reciprocal(maximum(1e-12, einsum('ij,ij->j', l, r).real))
     eig_sens = minimum(1e12, eig_sens)
+    # Accuracy of each λ, repeated imaginary poles pick up a real part of this
+    # size.
+    p_tol = norm(b, 1) / maximum(1e-12, np.abs(einsum('ij,ij->j', l.conj(),
+                                                      r)))
+    p_tol = maximum(sqrt_eps, np.spacing(p_tol))
     # Tolerances
     p[np.abs(p) < np.spacing(eig_sens * norm(b, 1))] = 0.
     # Incorporate balancing to outer factors
@@ -411,7 +416,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
 
     tfinal, dt = [], []
     ints = wnsub == 0.
-    iw = (psub.imag != 0.) & (np.abs(psub.real) <= sqrt_eps)
+    iw = (psub.imag != 0.) & (np.abs(psub.real) <= p_tol[relevance])
 
     # Pure imaginary?
     if np.any(iw):
-- 
2.43.0


From 76dfb3a01ec5ade51a403b449b0e93f06260a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:33 +0000
Subject: [PATCH 102/121] fix: make the lower bound of cancellation_distance
 hold

The eigenvalue was picked by the softer bound, so the sharper one was not
the smallest over the candidates. The reported lower bound could then
exceed the true distance, also for exactly uncontrollable pairs. Pick the
eigenvalue with the smallest singular value instead.
---
 harold/_system_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index d4ae783..d0f580e 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -289,10 +289,12 @@ def cancellation_distance(F, G):
     for x in range(n):
         upp0[x] = norm((C-evals[x]*D).dot(Y[:, x])) / norm(X[:, x])
 
-    f = np.argsort(upp0)[0]
+    # The lower bound needs the smallest distance over all candidates
+    upp2 = [svdvals(A - x*B)[-1] for x in evals]
+    f = np.argmin(upp2)
     e_f = evals[f]
     upper1 = upp0[f]
-    upper2 = svdvals(A - e_f*B)[-1]
+    upper2 = upp2[f]
     lower0 = upper2/(K+1)
     radius = upper2*K
 
-- 
2.43.0


From 94c7e246eeed285310bdb30fc29d60bafdd42cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:36 +0000
Subject: [PATCH 103/121] fix: accept array_like arguments in
 cancellation_distance

Nested lists are documented as valid but failed with an AttributeError.
---
 harold/_system_funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index d0f580e..b08ff2f 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -270,6 +270,7 @@ def cancellation_distance(F, G):
         of Pencils with Simple Eigenvalue Estimates, :doi:`10.1137/0611046`
 
     """
+    F, G = np.atleast_2d(F), np.atleast_2d(G)
     if not np.equal(*F.shape):
         raise ValueError('F input must be a square array.')
     if F.shape[0] != G.shape[0]:
-- 
2.43.0


From 7c0fb97854eacfbdbd0ac2790de25e4cf00a41b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:13 +0000
Subject: [PATCH 104/121] fix: refuse sampling periods that are not finite

A not-a-number or infinite sampling period was stored although the setter
asks for a real positive scalar.
---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 1ae55d8..348523c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -260,7 +260,7 @@ class Transfer:
     def SamplingPeriod(self, value):
         if value is not None:
             value = float(value)
-            if value <= 0.:
+            if not 0. < value < np.inf:
                 raise ValueError('SamplingPeriod must be a real positive '
                                  'scalar. But looks like a \"{0}\" is '
                                  'given.'.format(type(value).__name__))
@@ -1898,7 +1898,7 @@ class State:
     def SamplingPeriod(self, value):
         if value is not None:
             value = float(value)
-            if value <= 0.:
+            if not 0. < value < np.inf:
                 raise ValueError('SamplingPeriod must be a real positive '
                                  'scalar. But looks like a \"{0}\" is '
                                  'given.'.format(type(value).__name__))
-- 
2.43.0


From de8b8c7c9cc0ac551073572d9dde1342ab865319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:18 +0000
Subject: [PATCH 105/121] fix: refuse unknown forms in hessenberg_realization

Any form other than 'o' silently gave the controllability form.
---
 harold/_system_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index b08ff2f..10d0ae0 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -173,6 +173,9 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
         is returned.
 
     """
+    if form not in ('c', 'o'):
+        raise ValueError('The "form" key can only take values "c" or "o".')
+
     if isinstance(G, tuple):
         a, b, c = G
         a, b, c, *_ = State.validate_arguments(a, b, c, zeros((c.shape[0],
-- 
2.43.0


From 13ed0515e5be40b2740018a858ff9728776b8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:23 +0000
Subject: [PATCH 106/121] fix: refuse unknown methods in undiscretize

An unknown method ended with an unassigned local variable, or was ignored
for static gains.
---
 harold/_discrete_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 71d5ffe..76ab8ed 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -258,6 +258,9 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             method = G.DiscretizedWith
             if prewarp_at == 0. and G.PrewarpFrequency is not None:
                 prewarp_at = G.PrewarpFrequency
+    elif method not in KDM:
+        raise ValueError('I don\'t know the discretization method "{0}". But '
+                         'I know:\n {1}'.format(method, ',\n'.join(KDM)))
 
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
-- 
2.43.0


From 078807dd3dda4ce7fe800a02f5a875c78b586836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:27 +0000
Subject: [PATCH 107/121] fix: refuse to discretize without a sampling period

A static gain discretized with the period None came back unchanged in
continuous time.
---
 harold/_discrete_funcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 76ab8ed..d81ec51 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -102,6 +102,9 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
         raise ValueError('The argument is already modeled as a '
                          'discrete-time system.')
 
+    if dt is None:
+        raise ValueError('Discretization requires a sampling period.')
+
     if isinstance(G, Transfer):
         T = transfer_to_state(G)
     else:
-- 
2.43.0


From 26ddabe4da2ab611f024902b98b0a1a903523274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:32 +0000
Subject: [PATCH 108/121] fix: pair_complex_numbers refuses matrices as
 announced

The argument was flattened before the check for its dimensions, so that
matrices were silently taken as a list of numbers.
---
 harold/_aux_linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 8703f9a..899592c 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -178,7 +178,7 @@ def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
 
     """
     try:
-        array_r_j = np.array(a, dtype='complex').flatten()
+        array_r_j = np.array(a, dtype='complex')
     except ValueError:
         raise ValueError('Something in the argument array prevents me to '
                          'convert the entries to complex numbers.')
@@ -191,6 +191,7 @@ def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
     if array_r_j.ndim > 1 and np.min(array_r_j.shape) > 1:
         raise ValueError('Currently, I can\'t deal with matrices, so I '
                          'need 1D arrays.')
+    array_r_j = array_r_j.flatten()
 
     # A shortcut for splitting a complex array into real and imag parts
     def return_imre(arr):
-- 
2.43.0


From b1b484ca0e273bab5ca1437fbfdc8d97cb941953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:36 +0000
Subject: [PATCH 109/121] fix: validate the matrices given to state_to_transfer

Matrices given as a tuple were not checked against each other, so that a
feedthrough matrix of the wrong size was cut or broadcast silently.
---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 348523c..824cf30 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2865,6 +2865,8 @@ def state_to_transfer(state_or_abcd, output='system'):
             # probably static gain
             A, B, C, D = None, None, None, state_or_abcd[0]
             it_is_gain = True
+        if not it_is_gain:
+            A, B, C, D, *_ = State.validate_arguments(A, B, C, D)
         p, m = D.shape
 
     if it_is_gain:
-- 
2.43.0


From 4ebc64e6ac845db9a3e23b0fd77935625430782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:32 +0000
Subject: [PATCH 110/121] fix: to_array of static gains returns a copy

The state version handed out the feedthrough matrix of the model itself, so
that changing the returned array changed the model.  The transfer version
already returned a new array.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 824cf30..6ab55d3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2587,7 +2587,7 @@ class State:
         a regular 2D-ndarray.
         '''
         if self._isgain:
-            return self._d
+            return self._d.copy()
         else:
             raise ValueError('Only static gain models can be converted to '
                              'ndarrays.')
-- 
2.43.0


From 9981537b792f79e7fea971f6bc8a87dfeb6a6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:36 +0000
Subject: [PATCH 111/121] fix: concatenate_state_matrices returns a copy for
 static gains

For static gains the feedthrough matrix of the model itself was returned
instead of a new array.
---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 6ab55d3..73570de 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3571,6 +3571,6 @@ def concatenate_state_matrices(G):
                          'representations, but I found \"{0}\" object '
                          'instead.'.format(type(G).__name__))
     if G._isgain:
-        return G.d
+        return G.d.copy()
 
     return np.block([[G.a, G.b], [G.c, G.d]])
-- 
2.43.0


From 4a292b739381d5e3785e8e553f9fd9b99553b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:34 +0000
Subject: [PATCH 112/121] fix: kalman_decomposition returns copies of the
 matrices of static gains

For static gains with output='matrices' the matrices of the argument itself
were returned, for all other models new arrays.
---
 harold/_kalman_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index b023d59..70ab625 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -184,7 +184,9 @@ def kalman_decomposition(G, compute_T=False, output='system',
 
     # If a static gain, then skip and return the argument
     if G._isgain:
-        Gk = G.matrices if output == 'matrices' else G
+        Gk = G
+        if output == 'matrices':
+            Gk = tuple(M.copy() for M in G.matrices)
         return (Gk, np.eye(0)) if compute_T else Gk
 
     # TODO: This is an unreliable test anyways but at least check
-- 
2.43.0


From f56a6f43f774f76afb4dfd5b21de694ae1e417f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:13 +0000
Subject: [PATCH 113/121] fix: find common multiples of polynomials in the
 units of their roots

Roots were matched with fixed tolerances, so common multiples of polynomials
whose roots are in the thousands or far below one came out wrong. Multivariable
transfer models with such poles then had wrong poles and responses.
---
 harold/_polynomial_ops.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index e375507..7cf1377 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -107,6 +107,18 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
         return lcmpoly, [mults[uniq.index(x.tolist())].copy() if x.size > 1
                          else lcmpoly.copy() for x in args]
 
+    # Measure the variable in units of the typical root, otherwise the powers
+    # of A below, and hence the rank decisions, depend on the units of time.
+    unit = _typical_root(poppedargs)
+    if unit != 1.:
+        res = haroldlcm(*[x*unit**-np.arange(x.size) for x in args],
+                        compute_multipliers=compute_multipliers,
+                        cleanup_threshold=cleanup_threshold)
+        if not compute_multipliers:
+            return res*unit**np.arange(res.size)
+        return (res[0]*unit**np.arange(res[0].size),
+                [x*unit**np.arange(x.size) for x in res[1]])
+
     # If there are more than one nonconstant polynomial to consider
     if len(poppedargs) > 1:
         a = block_diag(*(map(haroldcompanion, poppedargs)))
@@ -181,6 +193,24 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
         return lcmpoly
 
 
+def _typical_root(polys):
+    """
+    The power of two closest to the geometric mean of the magnitudes of the
+    nonzero roots of the given polynomials.
+    """
+    logs, count = 0., 0
+    for x in polys:
+        x = np.abs(x/x[0])
+        # Compared to the largest root, is there anything at the tail?
+        k = np.arange(1, x.size)
+        large = np.max(x[1:]**(1/k))
+        if large > 0.:
+            last = np.max(k[x[1:]/large**k > 1e-9])
+            logs += np.log2(x[last])
+            count += last
+    return 2.**np.rint(logs/count) if count > 0 else 1.
+
+
 def haroldgcd(*args):
     """
     Takes 1D numpy arrays and computes the numerical greatest common
-- 
2.43.0


From d8f512c2a37b7537cee4ee4ceb4de6c443cab1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:16 +0000
Subject: [PATCH 114/121] fix: transmission zeros do not depend on the units of
 the signals

The rank decisions compare the input, output and feedthrough matrices with the
state matrix. Badly scaled models lost zeros or gained spurious ones.
---
 harold/_classes.py | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 73570de..08633ef 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3,7 +3,7 @@ import warnings
 from numpy import zeros_like, kron, ndarray, zeros, exp, convolve, spacing
 from numpy.random import rand, choice
 from scipy.linalg import (eigvals, svdvals, block_diag, qz, norm, solve, expm,
-                          inv, LinAlgError)
+                          inv, matrix_balance, LinAlgError)
 from scipy.linalg._decomp import _asarray_validated
 from scipy.signal import deconvolve
 from scipy.stats import ortho_group
@@ -3229,7 +3229,13 @@ def transmission_zeros(A, B, C, D):
     # and becomes a c'bility/o'bility test. We don't need that.
     if not np.any(B) or not np.any(C):
         return np.zeros((0, 1))
-    elif (p == 1 and m == 1 and r > 0) or (r == min(p, m) and p == m):
+
+    # The rank decisions below compare against the norm of the whole system
+    # hence scale the states and the channels to a comparable size. This does
+    # not move the zeros.
+    A, B, C, D = _tzeros_scale(A, B, C, D)
+
+    if (p == 1 and m == 1 and r > 0) or (r == min(p, m) and p == m):
         Arc, Brc, Crc, Drc = (A, B, C, D)
     else:  # Reduction needed
         if r == p:
@@ -3271,6 +3277,38 @@ def transmission_zeros(A, B, C, D):
     return np.real_if_close(z)
 
 
+def _balance_states(A, B, C):
+    """
+    Scales the states by powers of two such that the rows and columns of
+    [A, B; C, 0] have comparable sizes.
+    """
+    n, m, p = A.shape[0], B.shape[1], C.shape[0]
+    M = np.zeros((n+max(p, m),)*2)
+    M[:n, :n], M[:n, n:n+m], M[n:n+p, :n] = A, B, C
+    _, (t, _) = matrix_balance(M, permute=False, separate=True)
+    # A common factor of the channels is a common factor of the states
+    t = t[:n]/2.**np.rint(np.mean(np.log2(t[n:])))
+    return A*t/t[:, None], B/t[:, None], C*t
+
+
+def _tzeros_scale(A, B, C, D):
+    """
+    Balances the states and brings the columns of B and the rows of C to the
+    size of A, all by powers of two.
+    """
+    A, B, C = _balance_states(A, B, C)
+
+    def factors(x):
+        # powers of two that bring the norms of the rows to that of A
+        r = np.zeros(x.shape[0])
+        nz = np.any(x, axis=1)
+        r[nz] = np.rint(np.log2((norm(A, 'fro') or 1.)/norm(x[nz], axis=1)))
+        return 2.**r[:, None]
+
+    fb, fc = factors(B.T).T, factors(C)
+    return A, B*fb, C*fc, D*fb*fc
+
+
 def _tzeros_reduce(A, B, C, D):
     """
     Basic deflation loop until we get a full row rank feedthrough matrix.
-- 
2.43.0


From d26111d1ae0e293094695fcc30fe9bb2f1b15b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:20 +0000
Subject: [PATCH 115/121] fix: convert badly scaled state models to transfer
 models

The numerators of an ordinary model with poles around 1000 rad/s were wrong
because the sample point and the solution did not follow the scale of the
state matrix.
---
 harold/_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 08633ef..1651959 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2878,6 +2878,8 @@ def state_to_transfer(state_or_abcd, output='system'):
 
     p, m = C.shape[0], B.shape[1]
     n = np.shape(A)[0]
+    # The units of the states don't matter, avoid badly scaled solutions below
+    A, B, C = _balance_states(A, B, C)
     pp = eigvals(A)
 
     entry_den = np.real(haroldpoly(pp))
@@ -2904,7 +2906,7 @@ def state_to_transfer(state_or_abcd, output='system'):
 
             # Additional factor of 2 are just some tolerances
 
-            s0 = max(np.abs(pp).max(), .5)*2
+            s0 = 2*max(np.abs(pp).max(), norm(A, 2)/100) or 1.
             if zz.size != 0:
                 # Numerically infinite zeros should not determine the scale
                 while np.any(np.abs(s0 - zz) < 0.1*s0):
-- 
2.43.0


From 30743724ba86b495f6ea6893f7d68160173313d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:31 +0000
Subject: [PATCH 116/121] fix: judge small numerator remainders relative to the
 polynomials

Remainders below a fixed threshold were dropped when a transfer model was
converted to a state model. Models with small numerators or slow poles lost
their dynamics.
---
 harold/_classes.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 1651959..d51c7b6 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3040,7 +3040,7 @@ def transfer_to_state(G, output='system'):
             # Watch out for full cancellation !!
             NumOrEmpty, datanum = haroldpolydiv(num, den)
             # Clean up the tiny entries
-            datanum[np.abs(datanum) < spacing(100.)] = 0.
+            datanum[_is_noise(datanum, num, NumOrEmpty[0]*den)] = 0.
 
             # If all cancelled datanum is returned empty
             if datanum.size == 0:
@@ -3077,9 +3077,11 @@ def transfer_to_state(G, output='system'):
                 elif nd > nn:  # Case 2 : D[x,y] is trivially zero
                     pass  # D[x,y] is already 0.
                 else:
-                    NumOrEmpty, datanum = haroldpolydiv(datanum, dataden)
+                    fullnum = datanum
+                    NumOrEmpty, datanum = haroldpolydiv(fullnum, dataden)
                     # Clean up the tiny entries
-                    datanum[np.abs(datanum) < spacing(100.)] = 0.
+                    datanum[_is_noise(datanum, fullnum,
+                                      NumOrEmpty[0]*dataden)] = 0.
 
                     # Case 3: If all cancelled datanum is returned empty
                     if np.count_nonzero(datanum) == 0:
@@ -3197,6 +3199,16 @@ def transfer_to_state(G, output='system'):
     return (A, B, C, D) if output == 'matrices' else State(A, B, C, D, dt)
 
 
+def _is_noise(diff, x, y):
+    """
+    Marks the entries of the difference of the tails of x and y that are
+    only rounding errors.
+    """
+    n = diff.size
+    return np.abs(diff) < spacing(100.)*(np.abs(x[x.size-n:]) +
+                                         np.abs(y[y.size-n:]))
+
+
 def transmission_zeros(A, B, C, D):
     """
     Computes the transmission zeros of :class:`State` data arrays ``A``, ``B``,
-- 
2.43.0


From b66ff00da287ac485a0bee60e6da6001e9f7d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:17:34 +0000
Subject: [PATCH 117/121] fix: compute system norms of badly scaled models

The search for the peak gain and the tests on the Hamiltonian eigenvalues used
fixed tolerances, so a change of units gave different norms.
---
 harold/_system_props.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index c1b5c31..f6f9ac0 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -5,7 +5,8 @@ from scipy.linalg import block_diag, solve, norm, eigvals, qr
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
-from ._classes import State, Transfer, transfer_to_state
+from ._classes import (State, Transfer, transfer_to_state,
+                       _balance_states)
 from ._solvers import lyapunov_eq_solver
 from ._arg_utils import _check_for_state_or_transfer
 
@@ -76,6 +77,10 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             return norm(d)
         return norm(d, ord=2)
 
+    # The units of the states don't matter for the norms
+    a, b, c = _balance_states(a, b, c)
+    T = State(a, b, c, d, dt=T.SamplingPeriod)
+
     # 2-norm
     if p == 2:
         # Handle trivial infinities
@@ -133,6 +138,14 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if gamma_lb == 0.:
             return 0.
 
+        # The eigenvalues below are judged by absolute tolerances. Measure time,
+        # gain and states in units that make everything comparable to one.
+        t_unit = 2.**np.rint(np.log2(np.max(np.abs(T.poles))))
+        g_unit = 2.**np.rint(np.log2(gamma_lb))
+        a, b, c = _balance_states(a/t_unit, b/t_unit, c/g_unit)
+        d, gamma_lb = d/g_unit, gamma_lb/g_unit
+        T = State(a, b, c, d)
+
         n, (p_out, m) = a.shape[0], d.shape
 
         # Start a for loop with a definite end! Convergence is quartic!!
@@ -173,7 +186,7 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
                     break
                 gamma_lb = lb
 
-        return (gamma_lb + test_gamma)/2
+        return g_unit*(gamma_lb + test_gamma)/2
 
 
 def controllability_indices(A, B, tol=None):
-- 
2.43.0


From 89ecf67396b8856cc6a0352d3cb12a548e5adf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:08 +0000
Subject: [PATCH 118/121] fix: find common divisors of polynomials in the units
 of their roots

The entries of the eliminated Sylvester matrix were compared with a fixed
threshold, so divisors with roots far below one were wrong.
---
 harold/_polynomial_ops.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 7cf1377..54bf289 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -110,7 +110,7 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     # Measure the variable in units of the typical root, otherwise the powers
     # of A below, and hence the rank decisions, depend on the units of time.
     unit = _typical_root(poppedargs)
-    if unit != 1.:
+    if not .5 <= unit <= 2.:
         res = haroldlcm(*[x*unit**-np.arange(x.size) for x in args],
                         compute_multipliers=compute_multipliers,
                         cleanup_threshold=cleanup_threshold)
@@ -278,6 +278,14 @@ def haroldgcd(*args):
     if n > 0 and np.min(degree_list) == 0:
         return np.array([1])
 
+    # Measure the variable in units of the typical root
+    unit = _typical_root([x for x in arr_args if x.size > 0])
+    if not .5 <= unit <= 2.:
+        res = haroldgcd(*[x*unit**-np.arange(x.size) for x in arr_args])
+        return res*unit**np.arange(res.size)
+
+    arr_args = [x/np.abs(x).max() if x.size > 0 else x for x in arr_args]
+
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
     S = np.array([np.hstack((
-- 
2.43.0


From 42bb08996fc7cb87f44906816d6a5cb2be4d6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:54:42 +0000
Subject: [PATCH 119/121] fix: find the blocks of small generalized Lyapunov
 equations

The subdiagonal entries of the Schur form were compared with a fixed
threshold. The blocks of matrices with small entries were overlooked and the
result did not solve the equation.
---
 harold/_solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index 3ac0f13..ac51faa 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -193,7 +193,8 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = A.shape[0]
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > \
+        tol * np.abs(As).max()
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
@@ -355,7 +356,8 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
     # Based on that we have the block sizes `bz` and starting positions `bs`.
 
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > \
+        tol * np.abs(As).max()
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
-- 
2.43.0


From b1530fa84d2c63e385e31c85230f0553b8c0e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:23:23 +0000
Subject: [PATCH 120/121] fix: keep slow modes in the dc gain of state models

Hidden integrators are removed with the default tolerance of the minimal
realization. Slow modes that almost cancel, such as those of
(s + 3e-7)/(s + 1e-7), were removed too and the gain was wrong.
---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 10d0ae0..0e2652f 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -560,7 +560,7 @@ def dcgain(self):
         for r in range(self._p):
             aa, bb, cc = _minimal_realization_state(self.a,
                                                     self.b[:, [c]],
-                                                    self.c[[r], :])
+                                                    self.c[[r], :], 1e-10)
             n = aa.shape[0]
             if n == 0:
                 R[r, c] = 0.
-- 
2.43.0


From 40267d6422a49de62ebef48b0bad1555235ac28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:54:04 +0000
Subject: [PATCH 121/121] fix: decide on infinite H2-norms independently of the
 units

Feedthrough was compared with an absolute threshold, such that biproper
models with small gains had finite norms.
---
 harold/_system_props.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index f6f9ac0..9e4138f 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -86,7 +86,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         # Handle trivial infinities
         if not T._isstable:
             return np.Inf
-        if T.SamplingSet == 'R' and not np.allclose(d, np.zeros_like(d)):
+        # Feedthrough that is small next to the dynamics is taken as noise
+        if T.SamplingSet == 'R' and \
+                norm(d) * norm(a) > 1e-10 * norm(b) * norm(c):
             return np.Inf
 
         if T.SamplingSet == 'R':
-- 
2.43.0

