From c5bad85b0e434f3e8f188c2c15353c415129aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 01/66] fix: order of the digits I and J in base_repr

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..070ac38 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -10,7 +10,7 @@ from scipy.spatial.distance import squareform
 from scipy.special import binom
 from warnings import warn
 NUMERALS = '0123456789'
-ALPHNUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+ALPHNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 
 @njit(cache=True)
@@ -353,7 +353,7 @@ def _small_base(i, base):
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
     term = int(i/base**exponent)
-- 
2.43.0


From f24e479213dae33ab9d974d7d53699a5ebd7a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 02/66] fix: leading zero and rounded digits of large numbers
 in base_repr

---
 coniii/utils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 070ac38..9c07ed7 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -331,11 +331,12 @@ def base_repr(i, base):
 def _small_base(i, base):
     rep = []
     exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
     # handle problematically rounded cases
-    if term==base:
+    if base**exponent>i:
+        exponent -= 1
+    elif i//base**exponent>=base:
         exponent += 1
-        term = 1
+    term = i//base**exponent
     rep.append(NUMERALS[term])
     i -= term*base**exponent
     
@@ -345,7 +346,7 @@ def _small_base(i, base):
         if baseToExp>i:
             rep.append('0')
         else:
-            term = int(i/baseToExp)
+            term = i//baseToExp
             rep.append(NUMERALS[term])
             i -= term*baseToExp
         exponent -= 1
@@ -356,11 +357,12 @@ def _large_base(i, base):
     ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
     # handle problematically rounded cases
-    if term==base:
+    if base**exponent>i:
+        exponent -= 1
+    elif i//base**exponent>=base:
         exponent += 1
-        term = 1
+    term = i//base**exponent
     rep.append(ALPHANUM[term])
     i -= term*base**exponent
     
@@ -370,7 +372,7 @@ def _large_base(i, base):
         if baseToExp>i:
             rep.append('0')
         else:
-            term = int(i/baseToExp)
+            term = i//baseToExp
             rep.append(ALPHANUM[term])
             i -= term*baseToExp
         exponent -= 1
-- 
2.43.0


From 5969a309cab015a30214c7264148c1fecaa5000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 03/66] fix: k_corr overwrote the result for exclude_empty

---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 9c07ed7..78f494c 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,6 +243,7 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
+        return kcorr
     
     if weights is None:
         weights = np.ones(S)/S
-- 
2.43.0


From 16069f16cfbb73c3d1e50b235da36ae3b6f73bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 04/66] fix: convert_corr failed for the deprecated keyword
 convertTo

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 78f494c..0a8f6e8 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -563,7 +563,7 @@ def split_concat_params(p, n):
         i += 1
     return splitp
 
-def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
+def convert_corr(si, sisj, convert_to=None, concat=False, **kwargs):
     """Convert single spin means and pairwise correlations between {0,1} and {-1,1}
     formulations.
 
@@ -591,7 +591,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From 2b63812ca6086e98781c7dd7d10e85ba9614f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 05/66] fix: multinomial truncated the result of floating point
 arithmetic

---
 coniii/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 0a8f6e8..11b5c8f 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -521,7 +521,10 @@ def unravel_index(ijk, n):
 def multinomial(*args):
     from scipy.special import factorial
     assert sum(args[1:])==args[0]
-    return int(np.exp( np.log(factorial(args[0])) - sum([np.log(factorial(a)) for a in args[1:]]) ))
+    n = factorial(args[0], exact=True)
+    for a in args[1:]:
+        n //= factorial(a, exact=True)
+    return n
 
 def _expand_binomial(a, b, n=2):
     """Expand a product of binomials that have the same coefficients given by a and b.
-- 
2.43.0


From 0321436701b00de178b835a872ce3ca79d0dd544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 06/66] fix: state_probs ignored weights if states were not
 given

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 11b5c8f..9bc5e0f 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -655,7 +655,7 @@ def state_probs(v, allstates=None, weights=None, normalized=True):
     if allstates is None:
         allstates = v[unique_rows(v)]
         uniqIx = unique_rows(v, return_inverse=True)
-        freq = np.bincount( uniqIx )
+        freq = np.bincount( uniqIx, weights=weights )
         return_all_states = True
     else:
         if weights is None:
-- 
2.43.0


From 749ed0b12b08767d1b5806e8401f4af1407b90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 07/66] fix: signature of the energy sum in
 define_ising_helper_functions_sym

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 9bc5e0f..5e4949a 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1007,7 +1007,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit(cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From 92796bd1fc4e7a1ebe0f211626f7354433673724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 08/66] fix: unravel_index failed for numpy integers

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 5e4949a..a5f1993 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -503,7 +503,7 @@ def unravel_index(ijk, n):
         Unraveled index.
     """
     
-    if type(ijk) is int:
+    if isinstance(ijk, (int, np.integer)):
         return ijk
     if len(ijk)==1:
         return ijk[0]
-- 
2.43.0


From d8691a789675d5aedb1e8d956e9094921eae34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:58 +0000
Subject: [PATCH 09/66] fix: coarse_grain_with_func paired a column with itself
 if no similarity is positive

---
 coniii/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index a5f1993..a8b74fe 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1335,8 +1335,9 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     # Combine sets of spins with the largest pairwise correlations
     for coarseix in range(n_times):
         n = coarseX.shape[1]
-        cij = squareform(sim_func(coarseX))
+        cij = squareform(sim_func(coarseX)).astype(float)
         assert cij.shape==(n,n)
+        np.fill_diagonal(cij, -np.inf)  # a spin is never paired with itself
         ix = list(range(coarseX.shape[1]))
         
         newClusters = []
-- 
2.43.0


From adfe2e0b0648d0935a0812e4ec52548ade9e2199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 10/66] fix: pair_corr overflowed small integer types when
 summing over the data

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index a8b74fe..6ed024f 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -172,7 +172,7 @@ def pair_corr(X,
     # Calculate pairwise correlations depending on whether or not exclude_empty was set or not.
     if type(weights) is tuple:
         si = X.sum(0) * weights[0]
-        sisj = (X.T.dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
+        sisj = (X.T.dot(X.astype(float)))[np.triu_indices(X.shape[1],k=1)] * weights[1]
     else:
         si = (X*weights[:,None]).sum(0)
         sisj = (X.T.dot(X*weights[:,None]))[np.triu_indices(X.shape[1],k=1)]
-- 
2.43.0


From 03577e945ac1bab3436fd078b0e97de761227fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 11/66] fix: Potts3.generate_sample used the Ising sampler with
 boost

---
 coniii/samplers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..275c3d4 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1816,6 +1816,35 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                               sample_size,
+                               n_iters=1000,
+                               burn_in=None,
+                               systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If not set, will be the same value as n_iters.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one. 
+        """
+        
+        burn_in = burn_in or n_iters
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From ab9967d06da34f5d99f4f3c29ba6fda9131ded13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 12/66] fix: C++ samplers misread multipliers that are not
 contiguous doubles

---
 cpp/samplers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..7ff0d09 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -306,7 +306,9 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // contiguous array of doubles whatever the type and the strides of the input
+    np::ndarray contiguous = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(contiguous.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
@@ -396,7 +398,9 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // contiguous array of doubles whatever the type and the strides of the input
+    np::ndarray contiguous = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(contiguous.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
-- 
2.43.0


From fcdd77bc49c61ed151f16e1cda3c2efed6b952bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 13/66] fix: BoostIsing.readin_multipliers left the old
 couplings in use

---
 cpp/samplers.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 7ff0d09..5c45f64 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -285,18 +285,9 @@ Ising::Ising(int n, std::vector<double> multipliers, int seed)
 
 Ising::Ising(int n, np::ndarray new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
-     int counter = 0;
-
      // read in numpy array
      readin_multipliers(new_multipliers);
 
-     // setup couplings by copying to a matrix
-     for (int i=0; i<(n-1); ++i) {
-         for (int j=i+1; j<n; ++j) {
-             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
-             counter++;
-         }
-     }
      // check that diagonal is zero
      for (int i=0; i<n; ++i) {
          assert (couplingMat[i][i]==0);
@@ -313,6 +304,15 @@ void Ising::readin_multipliers(np::ndarray new_multipliers) {
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
     }
+
+    // setup couplings by copying to a matrix
+    int counter = 0;
+    for (int i=0; i<(n-1); ++i) {
+        for (int j=i+1; j<n; ++j) {
+            couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
+            counter++;
+        }
+    }
 };
 
 // Initialize samples with random -1, 1 values
-- 
2.43.0


From e287f7cb7ba8b99a519b74e4c34964024c46ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 14/66] fix: sequential sampling failed after parallel sampling
 and forgot the state of the chain

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 275c3d4..ce419de 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1257,7 +1257,7 @@ class Metropolis(Sampler):
         
         burn_in = burn_in or n_iters
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or len(self._samples)!=1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From bcbd2a13e47dffaa50549bc1ee8ea49090d3febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 15/66] fix: energy history of generate_sample ended with a
 spurious zero

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index ce419de..9d235b6 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1279,7 +1279,7 @@ class Metropolis(Sampler):
                 E += de
         
         if saveHistory:
-            history = np.zeros(sample_size*n_iters+1)
+            history = np.zeros(sample_size*n_iters)
 
             if systematic_iter:
                 counter = 0
-- 
2.43.0


From 503cf6a277f6d10f283b3079d740d558223e78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 16/66] fix: burn_in=0 was ignored by the samplers

---
 coniii/samplers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 9d235b6..c8b3351 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1214,7 +1214,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
@@ -1255,7 +1255,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=1)):
             self._samples = self.random_sample(1)
@@ -1346,7 +1346,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
 
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
@@ -1390,7 +1390,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = mp.cpu_count()
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=n_cpus)):
@@ -1480,7 +1480,7 @@ class Metropolis(Sampler):
             Energy of each sample.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
@@ -1835,7 +1835,7 @@ class Potts3(Metropolis):
             If True, iterate through each element of system by increment index by one. 
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
@@ -1869,7 +1869,7 @@ class Potts3(Metropolis):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = self.nCpus  # alias
         assert n_cpus>=2, "Sampler is not set up for multiprocessing, nCpus<=1."
         assert sample_size>n_cpus, "Parallelization only helps if many samples are generated per thread."
-- 
2.43.0


From 571e03a850cc16ba91dd308eb98dbc9852a87188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 17/66] fix: systematic iteration started over with the first
 spin for every sample

---
 coniii/samplers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index c8b3351..afccd3d 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1285,7 +1285,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=counter%self.n )
                         E += de
                         history[counter] = E
                         counter += 1
@@ -1307,7 +1307,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=counter%self.n )
                         E += de
                         counter +=1
                     self.sample[i,:] = self._samples[:]
@@ -1431,7 +1431,7 @@ class Metropolis(Sampler):
 
                 for i in range(nSamples):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( s, E, rng=rng, flip_site=j%self.n )
+                        de = self.sample_metropolis( s, E, rng=rng, flip_site=(i*n_iters+j)%self.n )
                         E += de
                     samples[i,:] = s[:]
                 return samples, s, E
@@ -1650,7 +1650,7 @@ class Metropolis(Sampler):
                     counter = 0
                     for i in range(sample_size):
                         for j in range(n_iters):
-                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=j%nSubset, calc_e=cond_calc_e)
+                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=counter%nSubset, calc_e=cond_calc_e)
                             E += de
                             counter += 1
                         self.sample[i,:] = s[:]
-- 
2.43.0


From 54c4d46c2d783c8f585cd7c42d360114ba2e8cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 18/66] fix: WolffIsing failed with numpy>=1.24

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index afccd3d..bd0c867 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From ce60dcd436675aada481a7482247a81fe07e3b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 19/66] fix: WolffIsing did not take a coupling matrix

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index bd0c867..468294c 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -228,7 +228,7 @@ class WolffIsing(Sampler):
             Local fields.
         """
 
-        assert len(J)==(len(h)*(len(h)-1)//2)
+        assert len(J)==(len(h)*(len(h)-1)//2) or J.shape==(len(h),len(h))
 
         from scipy.spatial.distance import squareform
 
-- 
2.43.0


From 3a8f0bd9f794dd29dba054cf1f73b4f6ab25ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 20/66] fix: WolffIsing.one_step ignored initialsite=0

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 468294c..17f20bc 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From b2ff12f181209d0b8d515c667b6e3d0cfe7d2f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 21/66] fix: define_jit_cond_calc_e read the values of fixed
 spins from the wrong place

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 17f20bc..d5338f3 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1745,8 +1745,8 @@ def define_jit_cond_calc_e(n, calc_e, fixed_subset):
         stateix = 0
         # Fill all spins in between fixed ones.
         for i in range(0, fixed_subset.size, 2):
-            i = fixed_subset[i]
             s = fixed_subset[i+1]
+            i = fixed_subset[i]
             for ii in range(i0, i):
                 fullstate[0,ii] = state[0,stateix] 
                 stateix += 1
-- 
2.43.0


From 3e357a4ae51956542441bd105fa5f5db6989e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 22/66] fix: check_e_logp imported a module that does not exist

---
 coniii/samplers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index d5338f3..98ac0c0 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2429,8 +2429,6 @@ def check_e_logp(sample, calc_e):
     calc_e
     """
 
-    from misc.utils import unique_rows
-
     uniqueix = unique_rows(sample,return_inverse=True)
     uniqStates = sample[unique_rows(sample)]
 
-- 
2.43.0


From 1fab97b81947c70dc60394cfd25965fb04fb2bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 23/66] fix: ParallelTempering did not seed its replicas from
 the given rng

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 98ac0c0..54d6f32 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -683,7 +683,8 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False,
+                                             rng=np.random.RandomState(self.rng.randint(2**31-1))) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From 5589527941ccf43e27ab7a489482de4d76eeec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 24/66] fix: WolffIsing failed to compile its search for
 neighbors

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 54d6f32..a55ee86 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -396,7 +396,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From cd156efbf423472721641a0b6946dbfbce50edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 25/66] fix: Solver.logp failed for a single state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..479e385 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From b12b2863b5f862ba828af187175638783df9de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 26/66] fix: sparse solvers failed when only a single parameter
 is fit

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 479e385..662382a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 4014587c271c8c2b87e4e3214250139f17ef5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 27/66] fix: Enumerate.solve ignored given constraints when
 sizing the initial guess

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 662382a..5917dab 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From 6491d082c4318abbdc4103f2617585e616355539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 28/66] fix: sparse solvers could not use the correlations of
 their sample

---
 coniii/solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 5917dab..53c6dd3 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -346,6 +346,9 @@ class SparseEnumerate(Solver):
             warn("parameter_ix has repeated entries.")
         self.parameterIx = np.unique(parameter_ix)
         self.set_insertion_ix()
+        if not self.constraints is None:
+            # only the correlations corresponding to the specified parameters are constrained
+            self.constraints = self.constraints[self.parameterIx]
 
     def solve(self,
               initial_guess=None,
@@ -1106,6 +1109,9 @@ class SparseMCH(Solver):
             warn("parameter_ix has repeated entries.")
         self.parameterIx = np.unique(parameter_ix)
         self.set_insertion_ix()
+        if not self.constraints is None:
+            # only the correlations corresponding to the specified parameters are constrained
+            self.constraints = self.constraints[self.parameterIx]
     
     def solve(self,
               initial_guess=None,
-- 
2.43.0


From ed0737695cd694467df92f6089aa79af99cf94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 29/66] fix: MPF failed if adj or calc_de were given

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 53c6dd3..8f7e562 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -494,9 +494,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From 21cf440feb6fc60ad0540fbab4e894f550bb77e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 30/66] fix: spurious constant in the gradient of MPF.logK

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 8f7e562..8f51827 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -618,7 +618,6 @@ class MPF(Solver):
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
         
         if objGrad.size==1:
             raise Exception("")
-- 
2.43.0


From 93edfc389db2217e92d25ee01a6e52735e4ee7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 31/66] fix: MPF failed with all_connected=False

---
 coniii/solvers.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 8f51827..c8ea1b3 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -600,10 +600,12 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
+        # energy differences, number of adjacent states may vary if data states were removed
+        maxAdj = max([len(a) for a in adjacentStates])
+        power = np.zeros((len(Xuniq), maxAdj)) - np.inf
         for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
-                              self.model.calc_e(adjacentStates[i], params) )
+            power[i,:len(adjacentStates[i])] = .5*( self.model.calc_e(s[None,:], params) -
+                                                    self.model.calc_e(adjacentStates[i], params) )
             
         obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
         
@@ -612,9 +614,10 @@ class MPF(Solver):
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
+            gradcoef = np.zeros((len(Xuniq), maxAdj))
             for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+                gradcoef[j,:len(adjacentStates[j])] = .5 * ( self.calc_de(s[None,:],i) -
+                                                             self.calc_de(adjacentStates[j],i) )
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
@@ -641,11 +644,11 @@ class MPF(Solver):
             adjacentStates.append( self.adj(s).astype(int) )
             # Remove states already in data
             if not all_connected:
-                ix = np.zeros((s.size))==0
+                ix = np.ones(len(adjacentStates[-1]), dtype=bool)
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if not ix.any():
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From 482d6dc9019f7082f0a471547f7c21ad9dc854a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 32/66] fix: ClusterExpansion failed with mean field reference

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index c8ea1b3..1368908 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2343,7 +2343,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2501,7 +2501,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From 39bb53909562566a76feeb3fd5d6cece05ee7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 33/66] fix: ClusterExpansion.S failed with useAnalyticResults

---
 coniii/solvers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 1368908..f919153 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2212,19 +2212,19 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
             i = min(cluster[0],cluster[1])
             j = max(cluster[0],cluster[1])
             pi = coocMat[i,i]
             pj = coocMat[j,j]
             pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            Jii1 = -np.log( pi / (1.-pi) )
+            Jjj1 = -np.log( pj / (1.-pj) )
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
-- 
2.43.0


From 5f412593cc573e4ee749cb015a51d5180d683e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 34/66] fix: ClusterExpansion read the empty half of the
 cooccurrence matrix for unsorted clusters

---
 coniii/solvers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index f919153..7c51d6f 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2208,6 +2208,9 @@ class ClusterExpansion(Solver):
             Matrix of couplings.
         """
 
+        # coocMat may be upper triangular
+        cluster = sorted(cluster)
+        
         if len(cluster) == 0:
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
@@ -2323,6 +2326,8 @@ class ClusterExpansion(Solver):
         if meanFieldPriorLmbda is None:
             meanFieldPriorLmbda = priorLmbda
         
+        # coocMat may be upper triangular
+        cluster = sorted(cluster)
         cID = self.clusterID(cluster)
         if cID in deltaSdict:
             #print "deltaS: found answer for",cluster
-- 
2.43.0


From e132459550ad00664bda5ce1fa2088d778677dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 35/66] fix: SmeanField used eigenvectors that are not
 orthogonal

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 11e3c4a..867ef04 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -187,7 +187,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
             gamma = meanFieldPriorLmbda / numSamples
         else:
             gamma = 0.
-        mq,vq = scipy.linalg.eig(M)
+        mq,vq = scipy.linalg.eigh(M)
         mqhat = 0.5*( mq-gamma +                        \
                 scipy.sqrt((mq-gamma)**2 + 4.*gamma) )
         jq = 1./mqhat #1. - 1./mqhat
-- 
2.43.0


From b8fbd61f95a8ef1a8910868f016e4ec8cb0a1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 36/66] fix: SmeanField returned couplings that were not
 exactly symmetric and could not be converted

---
 coniii/mean_field_ising.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 867ef04..76156a7 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -206,6 +206,9 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
         logMvals = scipy.log( scipy.linalg.svdvals(M) )
         ent = Sind + 0.5*scipy.sum(logMvals)
     
+    # remove asymmetry from limited numerical precision
+    JMF = 0.5*( JMF + JMF.T )
+    
     # calculate diagonal (h) parameters
     piFactor = scipy.repeat( [(freqs-0.5)/(freqs*(1.-freqs))],
                             N, axis=0).T
-- 
2.43.0


From 139cb0700a6601835a239b2b928373ac052e6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 37/66] fix: RegularizedMeanField returned the parameters
 multiplied by two

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 7c51d6f..7604c10 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2733,7 +2733,6 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
 
         # convert J to {-1,1} basis
         h = -J.diagonal()
-- 
2.43.0


From fe38b94b9c33b4d2dc5feb2442f2b20a2efa7769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 38/66] fix: RegularizedMeanField compared the data to samples
 from a different model in a different basis

---
 coniii/solvers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 7604c10..a80a493 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2680,10 +2680,12 @@ class RegularizedMeanField(Solver):
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           # convert J to {-1,1} basis
+           h = -J.diagonal()
+           J = -zero_diag(J)
+           self.model.set_multipliers(convert_params( h, squareform(J)*2, '11', concat=True ))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample + 1) // 2
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
-- 
2.43.0


From 9f8a80364565d70b8af50ce636878b95b8161514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 39/66] fix: Ising did not accept a matrix of parameters for
 two spins

---
 coniii/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..0f14c5d 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -149,7 +149,9 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
+        is_matrix = (type(multipliers) is np.ndarray and multipliers.ndim==2
+                     and multipliers.shape[0]==multipliers.shape[1])
+        if len(multipliers)==2 and not is_matrix:
             # case where two vectors are given
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
-- 
2.43.0


From df7db7a2bed66bb04e43f6948dff25dc8addbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 40/66] fix: calc_observables was not set for Ising models too
 large to be enumerated

---
 coniii/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/models.py b/coniii/models.py
index 0f14c5d..2208ae5 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -182,6 +182,7 @@ class Ising(Model):
         except ModuleNotFoundError:
             self._calc_observables = None
             self._calc_p = None
+            self.calc_observables = None
             self.calc_p = None
         self.set_multipliers(multipliers)
 
-- 
2.43.0


From 53de30e348045b4f6650328fc34cffb814f83eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 41/66] fix: Model.generate_sample ignored generate_kwargs

---
 coniii/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/models.py b/coniii/models.py
index 2208ae5..f51ec9c 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -112,7 +112,8 @@ class Model():
                 self.sampler.update_parameters(multipliers)
                 self.sampler.generate_sample(sample_size,
                                              n_iters=n_iters,
-                                             burn_in=burn_in)
+                                             burn_in=burn_in,
+                                             **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
@@ -123,7 +124,8 @@ class Model():
 
                 self.sampler.generate_sample_parallel(sample_size,
                                                       n_iters=n_iters,
-                                                      burn_in=burn_in)
+                                                      burn_in=burn_in,
+                                                      **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
-- 
2.43.0


From 3346945021170405d5bfdd5cd6e76f70725ce151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 42/66] fix: ising.utils.Ising did not take lists of fields and
 couplings

---
 coniii/ising/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/ising/utils.py b/coniii/ising/utils.py
index 8bc36c9..d5d595c 100644
--- a/coniii/ising/utils.py
+++ b/coniii/ising/utils.py
@@ -55,12 +55,14 @@ class Ising():
             h = np.zeros(n)+h
         else:
             assert len(h)==n, "Number of fields should be equal to n."
+            h = np.array(h)
         if J is None:
             J = np.zeros(n*(n-1)//2)
         elif not hasattr(J, '__len__'):
             J = np.zeros(n*(n-1)//2)+J
         else:
             assert len(J)==(n*(n-1)//2), "Number of couplings should be equal to n choose 2."
+            J = np.array(J)
         assert h.ndim==1 and J.ndim==1, "Both h and J must be provided as vectors."
         
         self.n = n
-- 
2.43.0


From d9ae4dc5483c2a2d4d665c547de3a24871922be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 43/66] fix: Ising2D failed if the field is given for every
 lattice point

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From 0946095ab88231d47c7f14124f6fef271950ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 44/66] fix: spins of Ising2D aligned against the local field

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..83a1d7c 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -99,7 +99,7 @@ class Ising2D():
             dE-=2*J
         
         # Local field.
-        dE-=2*lattice[i,j]*h
+        dE+=2*lattice[i,j]*h
         
         if dE<=0:
             lattice[i,j]*=-1
-- 
2.43.0


From 7cea3d99fa5c618d2f8f4cfe26c283bdba58413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 45/66] fix: Ising2D.iterate made too many iterations if not
 systematic

---
 coniii/ising/automaton.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 83a1d7c..bc678a3 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -45,7 +45,7 @@ class Ising2D():
         if not systematic:
             @njit
             def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J):
-                for i in range(n_iters):
+                for counter in range(n_iters):
                     i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                     flip_metropolis(i, j, h[i,j], J, lattice)
         else:
@@ -59,10 +59,13 @@ class Ising2D():
                     flip_metropolis(i, j, h[i,j], J, lattice)
 
         lattice=self.lattice
-        counter = 0
-        while counter < n_iters:
+        if not systematic:
             single_iteration(lattice)
-            counter += self.dim[0]*self.dim[1]
+        else:
+            counter = 0
+            while counter < n_iters:
+                single_iteration(lattice)
+                counter += self.dim[0]*self.dim[1]
         self.lattice = lattice
 
     @staticmethod
-- 
2.43.0


From 50d33a55732d16b842744471c903d3241feb306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 46/66] fix: coarse_grain failed for lattices that are not
 square

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index bc678a3..3023231 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -125,11 +125,11 @@ def coarse_grain(lattice, factor):
     """
 
     reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
-    reL=len(reLattice)
+    reL=reLattice.shape
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL[0],:reL[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From e88a435706aca604a06689f6bf6ebee2a02ddf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 47/66] fix: Ising2D ignored the given random number generator

---
 coniii/ising/automaton.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 3023231..fce7f75 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
 
     def iterate(self, n_iters, systematic=True):
         """
@@ -58,6 +58,12 @@ class Ising2D():
                     i, j = ix_//dim[1], ix_%dim[1]
                     flip_metropolis(i, j, h[i,j], J, lattice)
 
+        # random numbers are generated in compiled code that has its own generator
+        @njit
+        def seed_rng(seed):
+            np.random.seed(seed)
+        seed_rng(self.rng.randint(2**31))
+
         lattice=self.lattice
         if not systematic:
             single_iteration(lattice)
-- 
2.43.0


From be0700a72fd9ad903f7bbfec845c4468b9a6a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 48/66] fix: get_nidx used bin_states without importing it

---
 coniii/enumerate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..eda34b3 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -396,6 +396,7 @@ def get_nidx(k, n):
     if k==n:
         return np.reshape(list(range(n)),(n,1))
     elif k<n:
+        from .utils import bin_states
         allStates = bin_states(n)
         statesix = np.sum(allStates,1)==k
         ix = []
-- 
2.43.0


From e9a60df33c07e8ddd69b5b360f74f0f4e921299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 49/66] fix: Potts equations for more than ten states

---
 coniii/enumerate_potts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..1bea825 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -146,7 +146,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if int(s[i],36)==k:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -216,7 +216,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(int(s[i],36)*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0


From a57dc057b3524b76d80c0a1a6e6129e52de3616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 50/66] fix: calc_overlap overflowed small integer types

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 6ed024f..2e571ac 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -107,7 +107,7 @@ def calc_overlap(sample,ignore_zeros=False):
         Instead of normalizing by the number of spins, normalize by the minimum number of
         nonzero spins.
     """
-    overlap = sample.dot(sample.T)
+    overlap = sample.dot(sample.T.astype(float))  # avoid overflow of small integer types
     if ignore_zeros:
         countZeros = np.zeros((len(sample),len(sample),2))
         countZeros[:,:,0] = (sample==0).sum(1)[:,None]
-- 
2.43.0


From 07bedeb31dcf3dcf547258432a9dfdd7f64c1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 51/66] fix: make samples of the parallel Python sampler
 acceptable to the energy functions

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a55ee86..e9fe4cb 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1444,7 +1444,7 @@ class Metropolis(Sampler):
                                                             [int(np.ceil(sample_size/n_cpus))]*n_cpus,
                                                             self.rng.randint(2**31-1,size=n_cpus)))))
         
-        self.sample = np.vstack(self.sample)[:sample_size]
+        self.sample = np.vstack(self.sample)[:sample_size].astype(int)
         self._samples = np.vstack(self._samples)
 
     def generate_cond_sample_boost(self,
-- 
2.43.0


From a304ba8d7ff1cc005d3097be42842cf57b71ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 52/66] fix: cooccurrence_matrix overflowed small integer types

---
 coniii/mean_field_ising.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 76156a7..07afa5c 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -457,6 +457,7 @@ def cooccurrence_matrix(samples, keep_diag=True):
     ndarray
     """
 
+    samples = np.asarray(samples, dtype=float)  # counts do not fit into small types
     mat = samples.T.dot(samples)
     mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
     mat /= len(samples)  # mat /= np.sum(mat)
-- 
2.43.0


From 8d00acada23825d9b05922bc636142ff31f23c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 53/66] fix: exact couplings near zero never moved in
 findJmatrixAnalytic_CoocMat

---
 coniii/mean_field_ising.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 07afa5c..ab333ae 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -369,8 +369,25 @@ def findJmatrixAnalytic_CoocMat(coocMatData,
             dCooc = scipy.concatenate([dCooc,priorTerm])
         return dCooc
     
+    # Exact derivatives: steps of finite differences scale with the parameters, so that couplings
+    # close to zero would never move.
+    fp = fightPossibilities(ell,minSize)
+    obs = scipy.array([ aboveDiagFlat(scipy.outer(f,f),keepDiag=True) for f in fp ])
+    def jacobian(Jflat):
+        p = unsummedZ(unflatten(Jflat,ell),minSize=minSize)
+        p = p / scipy.sum(p)
+        mean = dot(p,obs)
+        jac = scipy.outer(mean,mean) - dot(obs.T*p,obs)
+        if (lmbda > 0.) and (ell > 1):
+            freqs = scipy.diag(coocMatDesired)
+            factor = scipy.outer(freqs*(1.-freqs),freqs*(1.-freqs))
+            priorJac = scipy.diag(2. * lmbda * aboveDiagFlat(factor) * Jflat[ell:])
+            priorJac = scipy.concatenate([scipy.zeros((len(priorJac),ell)),priorJac],axis=1)
+            jac = scipy.concatenate([jac,priorJac])
+        return jac
+    
     JinitFlat = aboveDiagFlat(Jinit,keepDiag=True)
-    Jflat = scipy.optimize.leastsq(deltaCooc,JinitFlat)[0]
+    Jflat = scipy.optimize.leastsq(deltaCooc,JinitFlat,Dfun=jacobian)[0]
     Jnew = unflatten(Jflat,ell,symmetrize=True)
     
     return Jnew
-- 
2.43.0


From 7450d2a12b8f6a69878533ba2e7b6e8481014b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 54/66] fix: wrong Hessian slowed and stopped
 pseudoInverseIsing early

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..33c4cd9 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -61,7 +61,7 @@ def pseudoInverseIsing(samples,minSize=0):
         Jr0[r] = hList[r]
         
         # 12.10.2013
-        samplesRhat = data.copy()
+        samplesRhat = 2.*data.copy()
         samplesRhat[:,r] = scipy.ones(len(data))
         # calculate once and pass to hessian algorithm for speed
         pairCoocRhat = pairCoocMat(samplesRhat)
-- 
2.43.0


From 8c0df0512680d59a9a58d0cc93158ca2b47a8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 55/66] fix: pseudoLogLikelihood did not select the parameters
 of each spin

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 33c4cd9..4ab0748 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
-- 
2.43.0


From 9610d73e2ed86a0fa4cc795960be54481d266d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:01 +0000
Subject: [PATCH 56/66] fix: spins of lattices of width one were coupled to
 themselves

---
 coniii/ising/automaton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index fce7f75..c204566 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -106,6 +106,10 @@ class Ising2D():
             dE+=2*J
         else:
             dE-=2*J
+        # A spin that is its own neighbor costs no energy to flip.
+        for L in dim:
+            if L==1:
+                dE-=4*J
         
         # Local field.
         dE+=2*lattice[i,j]*h
-- 
2.43.0


From 90ab0325c3dabe16721bf1658932a2c71dc1db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:12 +0000
Subject: [PATCH 57/66] fix: RegularizedMeanField could return parameters for a
 negative regularization

---
 coniii/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index a80a493..1497291 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2690,6 +2690,9 @@ class RegularizedMeanField(Solver):
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
             
+            # the solution is not real everywhere for negative regularization
+            if meanFieldGammaPrime < 0.: return np.inf
+
             # translate gammaPrime prior strength to lambda prior strength
             meanFieldPriorLmbda = meanFieldGammaPrime / (pmean**2 * (1.-pmean)**2)
             
-- 
2.43.0


From 6ee487e04ba7a3fe6504739ca6ca3312e06eb4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 58/66] fix: couplings of the starting point were shuffled in
 Pseudo._solve_ising

---
 coniii/solvers.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 1497291..c979c76 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1758,12 +1758,6 @@ class Pseudo(Solver):
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
             
-        # reformat initial_guess for easy looping later
-        initial_guessAsMat = replace_diag(squareform(initial_guess[self.n:]), initial_guess[:self.n])
-        for i in range(1,self.n):
-            tmp = initial_guessAsMat[i,i]
-            initial_guessAsMat[i,i] = initial_guessAsMat[i,0]
-            initial_guessAsMat[i,0] = tmp
         # initialize variables that will be used later 
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
         soln = []  # list of output from scipy.optimize.minimize for each spin
@@ -1784,7 +1778,7 @@ class Pseudo(Solver):
                 dloglikelihood = ( -(1/(1+np.exp(2*E)) * np.exp(2*E))[:,None] * 2*obs[r] ).sum(0)
                 return -loglikelihood, dloglikelihood
         
-            soln.append(minimize(f, initial_guessAsMat[r], jac=True, **solver_kwargs))
+            soln.append(minimize(f, initial_guess[multipliersrix], jac=True, **solver_kwargs))
             thisMultipliers = soln[-1]['x']
             Jmat[r,r] = thisMultipliers[0]
             Jmat[r,np.delete(np.arange(self.n),r)] = thisMultipliers[1:]
-- 
2.43.0


From b12753ff4ca62a93625f5567d8271f6f58926d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 59/66] fix: unique_rows distinguished negative from positive
 zeros

---
 coniii/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 2e571ac..b674f51 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -89,6 +89,8 @@ def unique_rows(mat, return_inverse=False):
         row indices of given mat that will give unique array
     """
 
+    if mat.dtype.kind in 'fc':
+        mat = mat + 0.  # -0 and 0 are equal but differ in memory
     b = np.ascontiguousarray(mat).view(np.dtype((np.void, mat.dtype.itemsize * mat.shape[1])))
     if not return_inverse:
         _, idx = np.unique(b, return_index=True)
-- 
2.43.0


From d42af22471b2ddfa164602f310b379858482cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 60/66] fix: fixed spins were misread from strided arrays or
 arrays of other integer types

---
 cpp/samplers.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 5c45f64..f3ab02e 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -264,8 +264,11 @@ void Sampler::readin_fixed_set(std::vector<int> &ix,
                                np::ndarray new_vals) {
     assert (new_ix.shape(0)==new_vals.shape(0));
     int n_subset = new_ix.shape(0);
-    int* input_ptr_ix = reinterpret_cast<int*>(new_ix.get_data());
-    int* input_ptr_vals = reinterpret_cast<int*>(new_vals.get_data());
+    // contiguous arrays of ints whatever the type and the strides of the input
+    np::ndarray contiguous_ix = new_ix.astype(np::dtype::get_builtin<int>());
+    np::ndarray contiguous_vals = new_vals.astype(np::dtype::get_builtin<int>());
+    int* input_ptr_ix = reinterpret_cast<int*>(contiguous_ix.get_data());
+    int* input_ptr_vals = reinterpret_cast<int*>(contiguous_vals.get_data());
 
     for (int i = 0; i < n_subset; i++) {
         ix.push_back(*(input_ptr_ix + i));
-- 
2.43.0


From c865c1bc15667df1ee5149d00798447fcb06b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 61/66] fix: integer starting points truncated parameters and
 gradients in Pseudo

---
 coniii/solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index c979c76..2f99770 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1757,6 +1757,7 @@ class Pseudo(Solver):
 
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
+        initial_guess = np.asarray(initial_guess, dtype=float)  # integer arrays would truncate
             
         # initialize variables that will be used later 
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
@@ -1827,6 +1828,7 @@ class Pseudo(Solver):
 
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
+        initial_guess = np.asarray(initial_guess, dtype=float)  # integer arrays would truncate
         obs = [self.calc_observables_r(r, self.sample) for r in range(self.n)]
         
         def f(params):
@@ -1883,6 +1885,7 @@ class Pseudo(Solver):
 
         if initial_guess is None:
             initial_guess = np.zeros(self.calc_observables(self.sample[0][None,:]).size)
+        initial_guess = np.asarray(initial_guess, dtype=float)  # integer arrays would truncate
         obs = []
         otherobs = []
         otherobsstate = []
-- 
2.43.0


From b2aae5192981e8c75a45fd4648ec61136ebcddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:04 +0000
Subject: [PATCH 62/66] fix: MCH solvers could not start from integer
 parameters

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 2f99770..7386910 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -875,7 +875,7 @@ class MCH(Solver):
         # parameters is stored.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
-            self._multipliers = initial_guess.copy()
+            self._multipliers = np.array(initial_guess, dtype=float)
         else:
             self._multipliers = np.zeros((len(constraints)))
         tol = tol or 1/np.sqrt(self.model.sampleSize)
@@ -1208,7 +1208,7 @@ class SparseMCH(Solver):
         # the ones that have been set to 0.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
-            self._multipliers = self.fill_in(initial_guess)
+            self._multipliers = self.fill_in(np.array(initial_guess, dtype=float))
         else:
             self._multipliers = self.fill_in(np.zeros(constraints.size))
         tol = tol or 1/np.sqrt(self.model.sampleSize)
@@ -1425,7 +1425,7 @@ class MCHIncompleteData(MCH):
         # Set initial guess for parameters.
         if not (initial_guess is None):
             assert len(initial_guess)==len(self.constraints)
-            self._multipliers = initial_guess.copy()
+            self._multipliers = np.array(initial_guess, dtype=float)
         else:
             self._multipliers = np.zeros((len(self.constraints)))
         tol = tol or 1/np.sqrt(self.sampleSize)
-- 
2.43.0


From 611220a7229640716ab851714f302cd1fb600f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 63/66] fix: histogram approximation overflowed for large
 changes of energy

---
 coniii/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index b674f51..9d90fcd 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -973,6 +973,7 @@ def define_ising_helper_functions():
     def mch_approximation(samples, dlamda):
         """Function for making MCH approximation step for Ising model."""
         dE = calc_e(samples, dlamda)
+        dE -= dE.min()  # the shift cancels and avoids overflow
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = pair_corr(samples, weights=np.exp(-dE)/len(dE), concat=True) * ZFraction  
         assert not (np.any(predsisj < -1.00000001) or
@@ -1209,6 +1210,7 @@ def define_potts_helper_functions(k):
         """
 
         dE = calc_e(sample, dlamda)
+        dE -= dE.min()  # the shift cancels and avoids overflow
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = (np.exp(-dE[:,None]) / len(dE) * calc_observables(sample)).sum(0) * ZFraction  
         assert not ((predsisj<0).any() or
-- 
2.43.0


From 0ba9663565da463a181207366081f2c429176c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 64/66] fix: block spins overflowed for blocks of more than 181
 x 181 spins

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index c204566..efff78e 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -134,7 +134,7 @@ def coarse_grain(lattice, factor):
     renormalized_lattice : ndarray
     """
 
-    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
+    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int64)
     reL=reLattice.shape
 
     for i in range(factor):
-- 
2.43.0


From 5f82067fa9de639c1350c8fdcf55c15d2e38717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 65/66] fix: coarse graining integer data truncated the values
 of the coarse-graining function

---
 coniii/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 9d90fcd..deebaa0 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1363,15 +1363,15 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
             newClusters.append((ix[0],))
         
         # coarse-grain data
-        X_ = np.zeros((coarseX.shape[0],int(np.ceil(n/2))), dtype=X.dtype)
+        X_ = []
         originalIx_ = []
         for i,ix in enumerate(newClusters):
-            X_[:,i] = coarse_func(coarseX[:,ix])
+            X_.append(coarse_func(coarseX[:,ix]))
             originalIx_.append([])
             for ix_ in ix:
                 originalIx_[-1] += originalIx[ix_]
         originalIx = originalIx_
-        coarseX = X_
+        coarseX = np.column_stack(X_)
     binsix = originalIx
     
     return coarseX, binsix
-- 
2.43.0


From 656a0a85a6b9f7077e5efd8509df2b1022fc10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 66/66] fix: derivatives of the energy wrapped around for
 unsigned states

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index deebaa0..86a61e4 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1300,11 +1300,11 @@ def calc_de(s, i):
     
     assert s.ndim==2
     if i<s.shape[1]:
-        return -s[:,i]
+        return -1. * s[:,i]
     else:
         i -= s.shape[1]
         i, j = ind_to_sub(s.shape[1], i)
-        return -s[:,i] * s[:,j]
+        return -1. * s[:,i] * s[:,j]
 
 def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     """Iteratively coarse-grain X by combining pairs with the highest similarity. Both the
-- 
2.43.0

