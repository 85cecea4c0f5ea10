From f61909c70adeea88ae315222210ce86645db6242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:46 +0000
Subject: [PATCH 01/45] fix: let KalmanFilterp handle p = 1

Reset() always filled the second row of the eigenvector matrix, which does
not exist for a first order process, so filtering threw an index error.
---
 src/kfilter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 77696c3..ab029ca 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -143,8 +143,7 @@ void KalmanFilterp::Reset() {
 	// is fast.
     arma::cx_mat EigenMat(p_,p_);
 	EigenMat.row(0) = arma::ones<arma::cx_rowvec>(p_);
-	EigenMat.row(1) = omega_.st();
-	for (std::uint64_t i=2; i<p_; i++) {
+	for (std::uint64_t i=1; i<p_; i++) {
 		EigenMat.row(i) = strans(arma::pow(omega_, i));
 	}
     
-- 
2.43.0


From 71b6a11b71222943f86bb9f995cca19a7bd21139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:08 +0000
Subject: [PATCH 02/45] fix: rotate the driving noise exactly in KalmanFilterp

The rotated input vector was obtained by solving a Vandermonde system.
When the AR roots are far from unity, as for times given in seconds, that
matrix is singular to working precision and the solver silently returned
an approximate answer, giving wrong filter variances.
---
 src/kfilter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index ab029ca..af4c9f4 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -147,14 +147,18 @@ void KalmanFilterp::Reset() {
 		EigenMat.row(i) = strans(arma::pow(omega_, i));
 	}
     
-	// Input vector under original state space representation
-	arma::cx_vec Rvector = arma::zeros<arma::cx_vec>(p_);
-	Rvector(p_-1) = 1.0;
-    
-	// Transform the input vector to the rotated state space representation.
-	// The notation R and J comes from Belcher et al. (1994).
-	arma::cx_vec Jvector(p_);
-	Jvector = arma::solve(EigenMat, Rvector);
+	// Transform the input vector (0, ..., 0, 1) to the rotated state space representation.
+	// The notation R and J comes from Belcher et al. (1994). The solution of EigenMat * J = R
+	// is known in closed form; solving numerically fails when the roots are far from unity,
+	// because then EigenMat is singular to working precision.
+	arma::cx_vec Jvector = arma::ones<arma::cx_vec>(p_);
+	for (std::uint64_t i=0; i<p_; i++) {
+		for (std::uint64_t j=0; j<p_; j++) {
+			if (i != j) {
+				Jvector(i) /= omega_(i) - omega_(j);
+			}
+		}
+	}
 	
 	// Transform the moving average coefficients to the space spanned by EigenMat.
 
-- 
2.43.0


From ae755ac472228b8b6e929919677ffcdf215ce29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:14 +0000
Subject: [PATCH 03/45] fix: predict the known value at an error-free
 observation

Predict() divided by the vanishing predictive variance and returned NaN.
---
 src/kfilter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index af4c9f4..a74ab88 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -83,6 +83,11 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
         }
     }
         
+    if ( (ipredict < time_.n_elem) && (time == time_(ipredict)) && (yerr_(ipredict) == 0.0) ) {
+        // the process was observed without error at this time, so its value is known
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
+
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
@@ -230,6 +235,11 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
         }
     }
     
+    if ( (ipredict < time_.n_elem) && (time == time_(ipredict)) && (yerr_(ipredict) == 0.0) ) {
+        // the process was observed without error at this time, so its value is known
+        return std::pair<double, double>(y_(ipredict), 0.0);
+    }
+
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
-- 
2.43.0


From c8e3eb3d961c9a5bb19df1e743292300230fa4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:14 +0000
Subject: [PATCH 04/45] fix: return simulated values in the requested order

Simulate() sorted the requested times and returned the values for the
sorted times. Requesting a time twice, or the time of an error-free
observation, inserted the same error-free point twice and made all later
values NaN.
---
 src/include/kfilter.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 1e17728..e531c2e 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -140,7 +140,9 @@ public:
         
         arma::vec ysimulated(time.n_elem);
         
-        time = arma::sort(time);
+        // simulate in order of time, but return the values in the order in which they were requested
+        arma::uvec sorted_indices = arma::sort_index(time);
+        time = time.elem(sorted_indices).eval();
         unsigned int insert_idx = 0;
         arma::vec tinsert(1);
         arma::vec dt_insert(1);
@@ -159,6 +161,10 @@ public:
                     break;
                 }
             }
+            if ( (insert_idx < time_.n_elem) && (time_(insert_idx) == time(i)) && (yerr_(insert_idx) == 0.0) ) {
+                // the value at this time is already known exactly
+                continue;
+            }
             // insert the simulated value into the measured time series array. these values are used in subsequent
             // calls to Predict(time(i)).
             tinsert(0) = time(i);
@@ -180,7 +186,10 @@ public:
         mean.zeros(time_.n_elem);
         var.zeros(time_.n_elem);
         
-        return arma::conv_to<std::vector<double> >::from(ysimulated);
+        arma::vec yrequested(time.n_elem);
+        yrequested.elem(sorted_indices) = ysimulated;
+        
+        return arma::conv_to<std::vector<double> >::from(yrequested);
     }
     
     // Methods needed for interpolation and backcasting
-- 
2.43.0


From c76e16bf75c3ec7bd8953596f4787a807e2508d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:07 +0000
Subject: [PATCH 05/45] fix: keep carma_process from truncating values and
 sorting its input

Integer times gave integer output, the caller's time array was sorted in
place, and a list of p moving average coefficients raised an error. The
deprecated filter's simulate() sorted its argument in place as well.
---
 src/carmcmc/carma_pack.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index bcc5a9c..d3f82c8 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1172,7 +1172,9 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         ma_coefs = np.resize(np.array(ma_coefs), len(ar_roots))
         ma_coefs[q:] = 0.0
 
-    time.sort()
+    # generate the values in order of time, but return them in the order of the input
+    sort_idx = np.argsort(time)
+    time = np.asarray(time)[sort_idx]
     # make sure process is stationary
     try:
         np.any(ar_roots.real < 0)
@@ -1205,7 +1207,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     Jvector = solve(EigenMat, Rvector)  # J = inv(E) * R
 
     # Compute the vector of moving average coefficients in the rotated state.
-    rotated_MA_coefs = ma_coefs.dot(EigenMat)
+    rotated_MA_coefs = np.asarray(ma_coefs).dot(EigenMat)
 
     # Calculate the stationary covariance matrix of the state vector
     StateVar = np.empty((p, p), dtype=complex)
@@ -1229,7 +1231,7 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
     kalman_var = np.real((rotated_MA_coefs * PredictionVar * rotated_MA_coefs.H).item())
 
     # simulate the first time series value
-    y = np.empty_like(time)
+    y = np.empty(time.size)
     y[0] = np.random.normal(kalman_mean, np.sqrt(kalman_var))
 
     # Initialize the innovations, i.e., the KF residuals
@@ -1256,7 +1258,10 @@ def carma_process(time, sigsqr, ar_roots, ma_coefs=[1.0]):
         # finally, update the innovation
         innovation = y[i] - kalman_mean
 
-    return y
+    y_input_order = np.empty(time.size)
+    y_input_order[sort_idx] = y
+
+    return y_input_order
 
 ##################
 # Deprecated
@@ -1508,8 +1513,8 @@ class KalmanFilterDeprecated(object):
             y0 = self.y
             yvar0 = self.yvar
             ysimulated = np.empty(time_simulate.size)
-            time_simulate.sort()
-            for i in range(time_simulate.size):
+            # simulate in order of time, but return the values in the order in which they were requested
+            for i in np.argsort(time_simulate):
                 cmean, cvar = self.predict(time_simulate[i])
                 ysimulated[i] = np.random.normal(cmean, np.sqrt(cvar))  # simulate the time series value
                 # find the index where time[isimulate-1] < time_simulate < time[isimulate]
-- 
2.43.0


From 67db23882aa819a34c4610c15ec1733c3ea856fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:46 +0000
Subject: [PATCH 06/45] fix: sort and de-duplicate the data given to the model
 classes

Models built from unsorted times evaluated to minus infinity and repeated
times raised an error, because only the Kalman filter reordered its copy
of the data.
---
 src/include/carpack.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 5cb173f..0af075f 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -67,6 +67,20 @@ public:
         time_ = arma::conv_to<arma::vec>::from(time);
         yerr_ = arma::conv_to<arma::vec>::from(yerr);
         
+        // keep the data in order of time, with one observation per time, as the Kalman filter does
+        arma::uvec sorted_indices = arma::stable_sort_index(time_);
+        arma::uvec unique_values(sorted_indices.n_elem);
+        arma::uword nunique = 0;
+        for (arma::uword i=0; i<sorted_indices.n_elem; i++) {
+            if (i == 0 || time_(sorted_indices(i)) != time_(sorted_indices(i-1))) {
+                unique_values(nunique++) = sorted_indices(i);
+            }
+        }
+        unique_values.resize(nunique);
+        time_ = arma::vec(time_.elem(unique_values));
+        y_ = arma::vec(y_.elem(unique_values));
+        yerr_ = arma::vec(yerr_.elem(unique_values));
+        
         // default prior bounds on the standard deviation of the time series
         SetPrior(10.0 * sqrt(arma::var(y_)));
     }
-- 
2.43.0


From 99e0fb087d4424af1a7ce46969ae93a0403e3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:59 +0000
Subject: [PATCH 07/45] fix: report the likelihood, not the posterior, as
 CarmaSample's loglik

The samples called loglik still contained the prior on the error scale,
and computing them left the sampler object in maximum-likelihood mode.
---
 src/carmcmc/carma_pack.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index d3f82c8..0691ac6 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -305,12 +305,10 @@ class CarmaSample(samplers.MCMCSample):
         # add the log-likelihoods
         print("Calculating log-likelihoods...")
         loglik = np.empty(logpost.size)
-        sampler.SetMLE(True)
         for i in range(logpost.size):
             std_theta = carmcmcLib.vecD()
             std_theta.extend(trace[i, :])
-            # loglik[i] = logpost[i] - sampler.getLogPrior(std_theta)
-            loglik[i] = sampler.getLogDensity(std_theta)
+            loglik[i] = logpost[i] - sampler.getLogPrior(std_theta)
 
         self._samples['loglik'] = loglik
 
-- 
2.43.0


From 45f2ade627535c1fb970b80bc3886db356b62ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:59 +0000
Subject: [PATCH 08/45] fix: use the moving average coefficients of ZCAR in its
 density

ZCAR set its own coefficients, but the ones used to evaluate the density
and the driving variance were those of the CAR(p) base class.
---
 src/include/carpack.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 0af075f..d11b56e 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -345,7 +345,6 @@ public:
 protected:
     int p_; // Order of the CAR(p) process
     bool order_lorentzians_; // force the lorentzian centroids to be in order?
-private:
     arma::vec ma_coefs_;
 };
 
@@ -373,7 +372,6 @@ public:
     }
 private:
     double kappa_; // minimum frequency resolved by the observation times
-    arma::vec ma_coefs_;
 };
 
 /*
-- 
2.43.0


From 1ea7ddc6906103865fccab47014f5ef317ded855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:37 +0000
Subject: [PATCH 09/45] fix: let CAR1 ignore its prior bounds in
 maximum-likelihood mode

---
 src/carpack.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 682a4aa..f1f489d 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -115,6 +115,8 @@ arma::vec CAR1::SetStartingValue(arma::vec init)
 
 bool CAR1::CheckPriorBounds(arma::vec theta)
 {
+    if (ignore_prior_) {return true;}
+    
     double ysigma = theta(0);
     double measerr_scale = theta(1);
     double omega = exp(theta(3));
-- 
2.43.0


From 7c0bbe43e565987e6ec19a928ba2ae89243e7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:57:05 +0000
Subject: [PATCH 10/45] fix: compare Lorentzian centroids on the scale of the
 frequencies

The ordering of the centroids was checked with an absolute tolerance of
1e-8, so it was not enforced for slowly sampled data.
---
 src/carpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index f1f489d..b8b1bba 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -356,7 +356,7 @@ bool CARp::CheckPriorBounds(arma::vec theta)
         // Make sure the Lorentzian centroids are still in decreasing order
         for (std::uint64_t i=1; i<lorentz_cent.n_elem; i++) {
             double lorentz_cent_difference = lorentz_cent(i) - lorentz_cent(i-1);
-            if (lorentz_cent_difference > 1e-8) {
+            if (lorentz_cent_difference > 1e-8 * max_freq_) {
                 // Lorentzians are not in decreasing order, reject this proposal
                 prior_satisfied = false;
             }
-- 
2.43.0


From 5668f1615f4239425f5e529a353190f66ea9a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:59:15 +0000
Subject: [PATCH 11/45] fix: compute the smaller real root of a quadratic
 factor without cancellation

For strongly separated real roots the smaller one came out as zero or with
few digits, which made the process non-stationary. The maximum-likelihood
dictionary could not be made at all because of a float range().
---
 src/carmcmc/carma_pack.py | 46 +++++++++++++++++----------------------
 src/carpack.cpp           |  4 ++--
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 0691ac6..9876d24 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -260,6 +260,18 @@ def _carma_loglik(theta, args):
     return -logdens
 
 
+def _quad_roots(quad1, quad2):
+    """
+    Return the two roots of s ** 2 + quad2 * s + quad1.
+    """
+    discriminant = quad2 ** 2 - 4.0 * quad1
+    sqrt_disc = np.where(discriminant > 0, np.sqrt(np.abs(discriminant)), 1j * np.sqrt(np.abs(discriminant)))
+    root1 = -0.5 * (quad2 + sqrt_disc)
+    # use the product of the roots when they are real, the difference cancels when they differ a lot
+    root2 = np.where(discriminant > 0, quad1 / root1, -0.5 * (quad2 - sqrt_disc))
+    return root1, root2
+
+
 class CarmaSample(samplers.MCMCSample):
     """
     Class for storing and analyzing the MCMC samples of a CARMA(p,q) model.
@@ -337,18 +349,11 @@ class CarmaSample(samplers.MCMCSample):
         psd_width = np.zeros(self.p)
         psd_cent = np.zeros(self.p)
 
-        for i in range(self.p / 2):
+        for i in range(self.p // 2):
             quad1 = quad_coefs[2 * i]
             quad2 = quad_coefs[2 * i + 1]
 
-            discriminant = quad2 ** 2 - 4.0 * quad1
-            if discriminant > 0:
-                sqrt_disc = np.sqrt(discriminant)
-            else:
-                sqrt_disc = 1j * np.sqrt(np.abs(discriminant))
-
-            ar_roots[2 * i] = -0.5 * (quad2 + sqrt_disc)
-            ar_roots[2 * i + 1] = -0.5 * (quad2 - sqrt_disc)
+            ar_roots[2 * i], ar_roots[2 * i + 1] = _quad_roots(quad1, quad2)
             psd_width[2 * i] = -np.real(ar_roots[2 * i]) / (2.0 * np.pi)
             psd_cent[2 * i] = np.abs(np.imag(ar_roots[2 * i])) / (2.0 * np.pi)
             psd_width[2 * i + 1] = -np.real(ar_roots[2 * i + 1]) / (2.0 * np.pi)
@@ -371,18 +376,11 @@ class CarmaSample(samplers.MCMCSample):
         else:
             quad_coefs = np.exp(MLE.x[3 + self.p:])
             ma_roots = np.empty(quad_coefs.size, dtype=complex)
-            for i in range(self.q / 2):
+            for i in range(self.q // 2):
                 quad1 = quad_coefs[2 * i]
                 quad2 = quad_coefs[2 * i + 1]
 
-                discriminant = quad2 ** 2 - 4.0 * quad1
-                if discriminant > 0:
-                    sqrt_disc = np.sqrt(discriminant)
-                else:
-                    sqrt_disc = 1j * np.sqrt(np.abs(discriminant))
-
-                ma_roots[2 * i] = -0.5 * (quad2 + sqrt_disc)
-                ma_roots[2 * i + 1] = -0.5 * (quad2 - sqrt_disc)
+                ma_roots[2 * i], ma_roots[2 * i + 1] = _quad_roots(quad1, quad2)
 
             if self.q % 2 == 1:
                 # q is odd, so add in root from linear term
@@ -448,10 +446,9 @@ class CarmaSample(samplers.MCMCSample):
             quad1 = quad_coefs[:, 2 * i]
             quad2 = quad_coefs[:, 2 * i + 1]
 
-            discriminant = quad2 ** 2 - 4.0 * quad1
-            sqrt_disc = np.where(discriminant > 0, np.sqrt(discriminant), 1j * np.sqrt(np.abs(discriminant)))
-            self._samples['ar_roots'][:, 2 * i] = -0.5 * (quad2 + sqrt_disc)
-            self._samples['ar_roots'][:, 2 * i + 1] = -0.5 * (quad2 - sqrt_disc)
+            root1, root2 = _quad_roots(quad1, quad2)
+            self._samples['ar_roots'][:, 2 * i] = root1
+            self._samples['ar_roots'][:, 2 * i + 1] = root2
             self._samples['psd_width'][:, 2 * i] = -np.real(self._samples['ar_roots'][:, 2 * i]) / (2.0 * np.pi)
             self._samples['psd_centroid'][:, 2 * i] = np.abs(np.imag(self._samples['ar_roots'][:, 2 * i])) / \
                 (2.0 * np.pi)
@@ -479,10 +476,7 @@ class CarmaSample(samplers.MCMCSample):
                 quad1 = quad_coefs[:, 2 * i]
                 quad2 = quad_coefs[:, 2 * i + 1]
 
-                discriminant = quad2 ** 2 - 4.0 * quad1
-                sqrt_disc = np.where(discriminant > 0, np.sqrt(discriminant), 1j * np.sqrt(np.abs(discriminant)))
-                roots[:, 2 * i] = -0.5 * (quad2 + sqrt_disc)
-                roots[:, 2 * i + 1] = -0.5 * (quad2 - sqrt_disc)
+                roots[:, 2 * i], roots[:, 2 * i + 1] = _quad_roots(quad1, quad2)
 
             if self.q % 2 == 1:
                 # q is odd, so add in root from linear term
diff --git a/src/carpack.cpp b/src/carpack.cpp
index b8b1bba..caac330 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -153,7 +153,7 @@ arma::cx_vec CARp::ARRoots(arma::vec theta)
         if (discriminant > 0) {
             // two real roots
             double root1 = -0.5 * (quad_term2 + sqrt(discriminant));
-            double root2 = -0.5 * (quad_term2 - sqrt(discriminant));
+            double root2 = quad_term1 / root1; // avoids cancellation when the roots differ a lot
             ar_roots(2*i) = std::complex<double> (root1, 0.0);
             ar_roots(2*i+1) = std::complex<double> (root2, 0.0);
         } else {
@@ -538,7 +538,7 @@ arma::vec CARMA::ExtractMA(arma::vec theta)
         if (discriminant > 0) {
             // two real roots
             double root1 = -0.5 * (quad_term2 + sqrt(discriminant));
-            double root2 = -0.5 * (quad_term2 - sqrt(discriminant));
+            double root2 = quad_term1 / root1; // avoids cancellation when the roots differ a lot
             ma_roots(2*i) = std::complex<double> (root1, 0.0);
             ma_roots(2*i+1) = std::complex<double> (root2, 0.0);
         } else {
-- 
2.43.0


From 82e17309f17dd1f031cf487a301990831a3c3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:54 +0000
Subject: [PATCH 12/45] fix: keep the logistic transform of kappa finite for
 large arguments

---
 src/carpack.cpp         | 2 +-
 src/include/carpack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index caac330..9995eaa 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -704,7 +704,7 @@ arma::vec ZCARMA::ExtractMA(arma::vec theta)
  ********************************************************************/
 
 double logit(double x) { return log(x / (1.0 - x)); }
-double inv_logit(double x) { return exp(x) / (1.0 + exp(x)); }
+double inv_logit(double x) { return 1.0 / (1.0 + exp(-x)); }
 
 // Check that all of the roots are unique to within a specified fractional
 // tolerance.
diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index d11b56e..b61f5e1 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -462,7 +462,7 @@ public:
         
         // now compute prior on x = logit(kappa_norm), assuming a uniform prior on kappa
         double logit_kappa = theta(p_+3);
-        logprior += -logit_kappa - 2.0 * log(1.0 + exp(-logit_kappa));
+        logprior += -std::abs(logit_kappa) - 2.0 * log(1.0 + exp(-std::abs(logit_kappa)));
                 
         return logprior;
     }
-- 
2.43.0


From cee7e15db5c8af78a82008de3006f81832483d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:29 +0000
Subject: [PATCH 13/45] fix: draw CAR(1) starting values inside the prior

The rate could fall below one over the length of the series, so the chain
started at a point of zero density. Its upper limit mixed a logarithm with
a frequency.
---
 src/carpack.cpp | 55 ++++++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 9995eaa..4d5840d 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -37,37 +37,40 @@ extern RandomGenerator RandGen;
 
 arma::vec CAR1::StartingValue()
 {
-	double log_omega_start, car1_stdev_start, sigma;
-
-	// Initialize the standard deviation of the CAR(1) process
-	// by drawing from its prior
-	car1_stdev_start = RandGen.scaled_inverse_chisqr(y_.n_elem-1, arma::var(y_));
-	car1_stdev_start = sqrt(car1_stdev_start);
-    
-    // Get initial value of the time series mean
-    double mu = RandGen.normal(arma::mean(y_), car1_stdev_start / y_.n_elem);
+	double log_omega_start, car1_stdev_start, sigma, mu, measerr_scale;
+	arma::vec theta(4);
 
-	// Initialize log(omega) to log( 1 / (a * median(dt)) ), where
-	// a ~ Uniform(1,50) , under the constraint that 
-	// tau = 1 / omega < max(time)
-	
     arma::vec dt = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
-	log_omega_start = -1.0 * log(arma::median(dt) * RandGen.uniform( 1.0, 50.0 ));
-	log_omega_start = std::min(log_omega_start, max_freq_);
+    double max_tau = std::min(50.0, (time_.max() - time_.min()) / arma::median(dt));
+    
+    // Draw until the starting value has a finite posterior
+    int iguess_count = 0;
+    do {
+        // Initialize the standard deviation of the CAR(1) process
+        // by drawing from its prior
+        car1_stdev_start = RandGen.scaled_inverse_chisqr(y_.n_elem-1, arma::var(y_));
+        car1_stdev_start = sqrt(car1_stdev_start);
+        
+        // Get initial value of the time series mean
+        mu = RandGen.normal(arma::mean(y_), car1_stdev_start / y_.n_elem);
+        
+        // Initialize log(omega) to log( 1 / (a * median(dt)) ), where
+        // a ~ Uniform(1,50) , under the constraint that
+        // tau = 1 / omega < max(time) - min(time)
+        log_omega_start = -1.0 * log(arma::median(dt) * (1.0 + (max_tau - 1.0) * RandGen.uniform(0.0, 1.0)));
+        
+        // Get initial value of the measurement error scaling parameter by
+        // drawing from its prior.
+        measerr_scale = RandGen.scaled_inverse_chisqr(measerr_dof_, 1.0);
+        measerr_scale = std::min(measerr_scale, 1.99);
+        measerr_scale = std::max(measerr_scale, 0.51);
+        
+        theta << car1_stdev_start << measerr_scale << mu << log_omega_start << arma::endr;
+        iguess_count++;
+    } while (!arma::is_finite(LogDensity(theta)) && iguess_count < 10000);
 	
 	sigma = car1_stdev_start * sqrt(2.0 * exp(log_omega_start));
 	
-	// Get initial value of the measurement error scaling parameter by
-	// drawing from its prior.
-	
-	double measerr_scale = RandGen.scaled_inverse_chisqr(measerr_dof_, 1.0);
-    measerr_scale = std::min(measerr_scale, 1.99);
-    measerr_scale = std::max(measerr_scale, 0.51);
-	
-	arma::vec theta(4);
-	
-	theta << car1_stdev_start << measerr_scale << mu << log_omega_start << arma::endr;
-	
 	// Initialize the Kalman filter
     pKFilter_->SetOmega(exp(log_omega_start));
     pKFilter_->SetSigsqr(sigma * sigma);
-- 
2.43.0


From f50483ac880f2fe9881b5eb4f75d94a25a2f30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:09 +0000
Subject: [PATCH 14/45] fix: draw starting values of CARMA with q = 0

---
 src/carpack.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 4d5840d..32a2a0b 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -434,7 +434,9 @@ arma::vec CARMA::StartingValue()
         }
         
         arma::vec log_ma_quad = StartingMA();
-        theta(arma::span(p_+3,theta.n_elem-1)) = log_ma_quad;
+        for (int i=0; i<q_; i++) {
+            theta(p_+3+i) = log_ma_quad(i);
+        }
         arma::vec ma_coefs = ExtractMA(theta);
 
         // Initial guess for model standard deviation is randomly distributed
-- 
2.43.0


From 037b1768520c42c60a43760bec106b6e3b466744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:42 +0000
Subject: [PATCH 15/45] fix: add the conjugate root for every positive centroid
 in get_ar_roots

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 9876d24..91d312f 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -1040,7 +1040,7 @@ def get_ar_roots(qpo_width, qpo_centroid):
     ar_roots = []
     for i in range(len(qpo_centroid)):
         ar_roots.append(qpo_width[i] + 1j * qpo_centroid[i])
-        if qpo_centroid[i] > 1e-10:
+        if qpo_centroid[i] > 0.0:
             # lorentzian is centered at a frequency > 0, so add complex conjugate of this root
             ar_roots.append(np.conjugate(ar_roots[-1]))
     if len(qpo_width) - len(qpo_centroid) == 1:
-- 
2.43.0


From aa0f0d88ef0aab3f89e6ae8d536ce93c5b87279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:51 +0000
Subject: [PATCH 16/45] fix: make CARp::Variance even in the lag

---
 src/carpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carpack.cpp b/src/carpack.cpp
index 32a2a0b..bd5aa17 100644
--- a/src/carpack.cpp
+++ b/src/carpack.cpp
@@ -404,7 +404,7 @@ double CARp::Variance(arma::cx_vec alpha_roots, arma::vec ma_coefs, double sigma
             ma_sum1 += ma_coefs(l) * std::pow(alpha_roots(k),l);
             ma_sum2 += ma_coefs(l) * std::pow(-alpha_roots(k),l);
         }
-        numer = ma_sum1 * ma_sum2 * std::exp(alpha_roots(k) * dt);
+        numer = ma_sum1 * ma_sum2 * std::exp(alpha_roots(k) * std::abs(dt));
         
         car_var += numer / denom;
 	}
-- 
2.43.0


From db345d0ee3795947a398ca1fcbbc5ac93411859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:40 +0000
Subject: [PATCH 17/45] fix: sub-sample CAR(1) draws by integer index in
 plot_power_spectrum

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 91d312f..1247cba 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -970,7 +970,7 @@ class Car1Sample(CarmaSample):
                 "nsamples must be less than the total number of MCMC samples."
 
             nsamples0 = sigmas.shape[0]
-            index = np.arange(nsamples) * (nsamples0 / nsamples)
+            index = (np.arange(nsamples) * (nsamples0 / nsamples)).astype(int)
             sigmas = sigmas[index]
             log_omegas = log_omegas[index]
 
-- 
2.43.0


From 7254f45454c77a198c71a840d9d77e9146532ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:39 +0000
Subject: [PATCH 18/45] fix: report the likelihood, not the posterior, of the
 maximum-likelihood estimate

---
 src/carmcmc/carma_pack.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 1247cba..0f9726d 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -341,7 +341,12 @@ class CarmaSample(samplers.MCMCSample):
 
         @param MLE: The maximum-likelihood estimate, returned by CarmaModel.get_mle() or CarmaModel.choose_order().
         """
-        self.mle = {'loglik': -MLE.fun, 'var': MLE.x[0] ** 2, 'measerr_scale': MLE.x[1], 'mu': MLE.x[2]}
+        # MLE.fun is minus the log-posterior, so remove the prior on the measurement error scale parameter
+        measerr_scale = MLE.x[1]
+        measerr_dof = 50.0
+        logprior = -0.5 * measerr_dof / measerr_scale - (1.0 + measerr_dof / 2.0) * np.log(measerr_scale)
+        self.mle = {'loglik': -MLE.fun - logprior, 'var': MLE.x[0] ** 2, 'measerr_scale': measerr_scale,
+                    'mu': MLE.x[2]}
 
         # add AR polynomial roots and PSD lorentzian parameters
         quad_coefs = np.exp(MLE.x[3:self.p + 3])
-- 
2.43.0


From 86f3ea02bba235a53c0aa1d3eeb807dfcd1b5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:12 +0000
Subject: [PATCH 19/45] fix: let assess_fit handle short time series

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 0f9726d..50e1546 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -739,7 +739,7 @@ class CarmaSample(samplers.MCMCSample):
         # plot the autocorrelation function of the residuals and compare with the 95% confidence intervals for white
         # noise
         plt.subplot(223)
-        maxlag = 50
+        maxlag = min(50, self.time.size - 1)  # there are no more lags than this
         wnoise_upper = 1.96 / np.sqrt(self.time.size)
         wnoise_lower = -1.96 / np.sqrt(self.time.size)
         plt.fill_between([0, maxlag], wnoise_upper, wnoise_lower, facecolor='grey')
-- 
2.43.0


From ecc28e71a080d35cc75779ae12ea405949f850ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:12 +0000
Subject: [PATCH 20/45] fix: use a random draw for the random estimate of a
 CAR(1) sample

---
 src/carmcmc/carma_pack.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 50e1546..daf837b 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -931,6 +931,12 @@ class Car1Sample(CarmaSample):
             sigsqr = np.median(self._samples['sigma']) ** 2
             mu = np.median(self._samples['mu'])
             log_omega = np.median(self._samples['log_omega'])
+        elif bestfit == 'random':
+            # use a random draw from the posterior
+            random_index = np.random.randint(self._samples['mu'].shape[0])
+            sigsqr = (self._samples['sigma'][random_index] ** 2)[0]
+            mu = self._samples['mu'][random_index][0]
+            log_omega = self._samples['log_omega'][random_index][0]
         else:
             # use posterior mean as the best-fit
             sigsqr = np.mean(self._samples['sigma'] ** 2)
-- 
2.43.0


From 3df198986bcc54186c6ec2de4aed21d37fcedf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:05 +0000
Subject: [PATCH 21/45] fix: compare stretch move values exactly

The stretch move tells the forward from the backward transition by comparing
values. An absolute tolerance of 1e-10 made both look alike for parameters of
a small scale, which dropped the Jacobian from the acceptance probability.
---
 src/include/proposals.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/proposals.hpp b/src/include/proposals.hpp
index a27580d..6d50cab 100644
--- a/src/include/proposals.hpp
+++ b/src/include/proposals.hpp
@@ -233,9 +233,7 @@ public:
 		arma::vec current_value = this->ensemble_[this->parameter_index_].Value();
 		
 		// Does the proposed parameter value = current parameter value?
-        arma::vec etol(new_value.n_elem);
-        etol.fill(1e-10);
-		arma::uvec equal_vector = (arma::abs(current_value - new_value) < etol);
+		arma::uvec equal_vector = (current_value == new_value);
 		
 		if (arma::sum(equal_vector) == equal_vector.size()) {
 			// We are calculating the density of the proposed -> current transition kernel,
-- 
2.43.0


From 4988566414cb3c089eac7828ac3489269ff292d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:20 +0000
Subject: [PATCH 22/45] fix: run a single chain at temperature one

A temperature ladder with one step consisted of its maximum temperature, so
the recorded draws came from a chain at temperature 100.
---
 src/carmcmc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 444ab1e..5205f5c 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -93,6 +93,7 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     
     arma::vec temp_ladder = arma::linspace<arma::vec>(0.0, log(max_temperature), nwalkers);
     temp_ladder = arma::exp(temp_ladder);
+    temp_ladder(0) = 1.0; // a grid with a single point would be at the maximum temperature
     
     Ensemble<CARp> CarEnsemble;
     // Add the parameters to the ensemble, starting with the coolest chain
-- 
2.43.0


From 31e193ea383b6aa365dab659bd8b771f08857342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:20 +0000
Subject: [PATCH 23/45] fix: let a cool chain of zero density leave by an
 exchange

The logarithm of the exchange ratio was computed as a difference of two
infinite terms, and the exchange was refused.
---
 src/include/steps.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 5bb3758..d7fa683 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -327,8 +327,7 @@ public:
         double other_temperature = ensemble_[parameter_index_-1].GetTemperature();
         
         // Calculate the logarithm of the metropolis-hastings ratio
-        double alpha = 1.0 / this_temperature * (other_logpost - this_logpost) +
-        1.0 / other_temperature * (this_logpost - other_logpost);
+        double alpha = (1.0 / this_temperature - 1.0 / other_temperature) * (other_logpost - this_logpost);
         
         // Perform metropolis-hastings update
 		double unif = uniform_(rng);
-- 
2.43.0


From f59f2f66b9385d8d49c06c5c7dcece83f20c5cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:53 +0000
Subject: [PATCH 24/45] fix: draw from power laws of slope -1 and of steep
 slopes

The transformation divided by zero for a slope of -1, lost all digits close to
it and overflowed for steep slopes or large bounds.
---
 src/random.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index bfe022c..3976564 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -144,10 +144,18 @@ double RandomGenerator::powerlaw(double lower, double upper, double slope)
 	double unif = uniform(0.0, 1.0);
 	
 	// Now do transformation Y -> X such that X ~ Powerlaw(slope,lower,upper)
-	double power = 1.0 / (slope + 1.0);
-	double base_value= (pow(upper, slope+1) - pow(lower, slope+1)) * unif + pow(lower,slope+1);
+	double power = slope + 1.0;
+	if (std::abs(power * std::log(upper / lower)) < 1e-8) {
+		// The density is proportional to 1 / x
+		return lower * pow(upper / lower, unif);
+	}
+	// Take the bound with the larger value of x^power as the unit
+	double unit = (power > 0) ? upper : lower;
+	double ratio = (power > 0) ? lower / upper : upper / lower;
+	double min_value = pow(ratio, power);
+	double base_value = (power > 0) ? (1.0 - min_value) * unif + min_value : (min_value - 1.0) * unif + 1.0;
 	
-	return pow(base_value, power);
+	return unit * pow(base_value, 1.0 / power);
 }
 
 // Method to return a random variate drawn from a Student's t-distribution. The parameters
-- 
2.43.0


From ada973e97741af43fe44466a05987db9e3e68224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:20 +0000
Subject: [PATCH 25/45] fix: make get_mle work with a single process

The result of map() cannot be indexed in Python 3.
---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index daf837b..f0e3fb0 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -109,7 +109,7 @@ class CarmaModel(object):
         args = [(p, q, self.time, self.y, self.ysig)] * ntrials
 
         if njobs == 1:
-            MLEs = map(_get_mle_single, args)
+            MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
             pool = multiprocessing.Pool(njobs)
-- 
2.43.0


From 4e5b57d8b8633f7c63700d3bee392e1afce22d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:45 +0000
Subject: [PATCH 26/45] fix: never return a failed trial of get_mle if another
 one succeeded

A NaN objective of the first trial was never replaced, and one of minus
infinity won over all others.
---
 src/carmcmc/carma_pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index f0e3fb0..0c8ecd3 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -120,7 +120,11 @@ class CarmaModel(object):
 
         best_MLE = MLEs[0]
         for MLE in MLEs:
-            if MLE.fun < best_MLE.fun:  # note that MLE.fun is -loglik since we use scipy.optimize.minimize
+            if not np.isfinite(MLE.fun):
+                # this trial failed
+                continue
+            # note that MLE.fun is -loglik since we use scipy.optimize.minimize
+            if not np.isfinite(best_MLE.fun) or MLE.fun < best_MLE.fun:
                 # new MLE found, save this value
                 best_MLE = MLE
 
-- 
2.43.0


From 62e7b7584df413cb1bf929a2e1996facff4201a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:45 +0000
Subject: [PATCH 27/45] fix: respect qmax in choose_order

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 0c8ecd3..d6b8b5b 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -166,7 +166,7 @@ class CarmaModel(object):
         if pqlist is None:
             pqlist = []
             for p in range(1, pmax+1):
-                for q in range(p):
+                for q in range(min(p, qmax + 1)):
                     pqlist.append((p, q))
 
         MLEs = []
-- 
2.43.0


From d03595ad314b28474ffc9ba2c1aa9a83758ffe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:45 +0000
Subject: [PATCH 28/45] fix: let choose_order pass over orders with an infinite
 AICc

The AICc divides by zero if there is one datum more than there are parameters.
---
 src/carmcmc/carma_pack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index d6b8b5b..4582a4a 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -181,7 +181,11 @@ class CarmaModel(object):
         for MLE, pq in zip(MLEs, pqlist):
             nparams = 2 + pq[0] + pq[1]
             deviance = 2.0 * MLE.fun
-            this_AICc = 2.0 * nparams + deviance + 2.0 * nparams * (nparams + 1.0) / (self.time.size - nparams - 1.0)
+            if self.time.size == nparams + 1:
+                # the correction for the sample size is not defined
+                this_AICc = np.inf
+            else:
+                this_AICc = 2.0 * nparams + deviance + 2.0 * nparams * (nparams + 1.0) / (self.time.size - nparams - 1.0)
             print(pq[0], pq[1], this_AICc)
             AICc.append(this_AICc)
             if this_AICc < best_AICc:
-- 
2.43.0


From 83ecc93cfa3a87f8cb3ee5a40448cf6089a13e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:49 +0000
Subject: [PATCH 29/45] fix: let the worker processes of get_mle use different
 random numbers

Forked workers inherited the same generator state, so they repeated each
other's starting values.
---
 src/boost_python_wrapper.cpp |  9 +++++++++
 src/carmcmc/carma_pack.py    | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/boost_python_wrapper.cpp b/src/boost_python_wrapper.cpp
index 70a1e04..a41c710 100644
--- a/src/boost_python_wrapper.cpp
+++ b/src/boost_python_wrapper.cpp
@@ -22,6 +22,12 @@
 
 using namespace boost::python;
 
+// Seed all the random numbers used by the C++ code
+static void SetSeed(unsigned long seed) {
+    RandGen.SetSeed(seed);
+    arma::arma_rng::set_seed(seed);
+}
+
 BOOST_PYTHON_FUNCTION_OVERLOADS(car1Overloads, RunCar1Sampler, 5, 7);
 BOOST_PYTHON_FUNCTION_OVERLOADS(carmaOverloads, RunCarmaSampler, 8, 11);
 
@@ -76,6 +82,9 @@ BOOST_PYTHON_MODULE(_carmcmc){
     def("run_mcmc_car1", RunCar1Sampler, car1Overloads());
     def("run_mcmc_carma", RunCarmaSampler, carmaOverloads());
 
+    // random.hpp
+    def("SetSeed", SetSeed);
+
     // kfilter.hpp
     class_<KalmanFilter<double>, boost::noncopyable>("KalmanFilter_double", no_init);
     class_<KalmanFilter<arma::cx_vec>, boost::noncopyable>("KalmanFilter_arma", no_init);
diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 4582a4a..4917468 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -112,7 +112,7 @@ class CarmaModel(object):
             MLEs = list(map(_get_mle_single, args))
         else:
             # use multiple processors
-            pool = multiprocessing.Pool(njobs)
+            pool = multiprocessing.Pool(njobs, _seed_worker, (np.random.randint(2 ** 31 - 1),))
             # warm up the pool
             pool.map(int, range(multiprocessing.cpu_count()))
             MLEs = pool.map(_get_mle_single, args)
@@ -200,6 +200,15 @@ class CarmaModel(object):
         return best_MLE, pqlist, AICc
 
 
+def _seed_worker(seed):
+    """
+    Give every worker process its own random numbers, otherwise they all start from copies of those of the parent.
+    """
+    seed += multiprocessing.current_process()._identity[-1]
+    np.random.seed(seed % 2 ** 32)
+    carmcmcLib.SetSeed(seed)
+
+
 def _get_mle_single(args):
 
     p, q, time, y, ysig = args
-- 
2.43.0


From e4c90d558db5ee6ea23d7ec7950103a36cced121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:39 +0000
Subject: [PATCH 30/45] fix: keep filter output unchanged by predictions and
 simulations

---
 src/include/kfilter.hpp | 15 ++++++++++++---
 src/kfilter.cpp         |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index e531c2e..cd34a01 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -134,6 +134,7 @@ public:
     // simulate a CARMA process, conditional on the measured time series
     std::vector<double> Simulate(arma::vec time) {
         // first save old values since we will overwrite them later
+        SavedOutput saved(*this);
         arma::vec time0 = time_;
         arma::vec y0 = y_;
         arma::vec yerr0 = yerr_;
@@ -182,9 +183,6 @@ public:
         dt_ = time_(arma::span(1,time_.n_elem-1)) - time_(arma::span(0,time_.n_elem-2));
         y_ = y0;
         yerr_ = yerr0;
-        // restore the original sizes of the kalman mean and variance arrays
-        mean.zeros(time_.n_elem);
-        var.zeros(time_.n_elem);
         
         arma::vec yrequested(time.n_elem);
         yrequested.elem(sorted_indices) = ysimulated;
@@ -197,6 +195,17 @@ public:
     virtual void UpdateCoefs() = 0;
 
 protected:
+    // Keeps the Kalman mean and variance, and puts them back when it goes out of scope
+    struct SavedOutput {
+        KalmanFilter& filter;
+        arma::vec mean0, var0;
+        SavedOutput(KalmanFilter& kfilter) : filter(kfilter), mean0(kfilter.mean), var0(kfilter.var) {}
+        ~SavedOutput() {
+            filter.mean = mean0;
+            filter.var = var0;
+        }
+    };
+    
     // Data
     arma::vec time_;
     arma::vec dt_;
diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index a74ab88..01a7ba0 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -88,6 +88,9 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
         return std::pair<double, double>(y_(ipredict), 0.0);
     }
 
+    // the prediction uses the Kalman mean and variance as workspace
+    SavedOutput saved(*this);
+
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
@@ -240,6 +243,9 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
         return std::pair<double, double>(y_(ipredict), 0.0);
     }
 
+    // the prediction uses the Kalman mean and variance as workspace
+    SavedOutput saved(*this);
+
     // Run the Kalman filter up to the point time_[ipredict-1]
     Reset();
     for (std::uint64_t i=1; i<ipredict; i++) {
-- 
2.43.0


From f2e4522e60f292ce66016cb62ea488cfb58ec86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:39 +0000
Subject: [PATCH 31/45] fix: do not resize the caller's moving average
 coefficients

---
 src/include/kfilter.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index cd34a01..9d25106 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -292,10 +292,11 @@ public:
         sigsqr_ = sigsqr;
         omega_ = omega; // omega are the roots of the AR characteristic polynomial
         p_ = omega_.n_elem;
-        if (p_ > ma_coefs.n_elem) {
-            ma_coefs.resize(p_);
+        arma::vec padded_coefs = ma_coefs; // leave the caller's vector alone
+        if (p_ > padded_coefs.n_elem) {
+            padded_coefs.resize(p_);
         }
-        SetMA(ma_coefs);
+        SetMA(padded_coefs);
         
         // set sizes of arrays
         state_vector_.zeros(p_);
-- 
2.43.0


From 60e987a63e95362eaa05a4d970a05c9da85aef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:39 +0000
Subject: [PATCH 32/45] fix: return no samples when there are none

---
 src/include/carpack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index b61f5e1..9d44c9f 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -223,7 +223,7 @@ public:
     // Return a copy of the MCMC samples
     std::vector<std::vector<double> > getSamples() {
         int nx = samples_.size();
-        int ny = samples_[0].n_elem;
+        int ny = nx > 0 ? samples_[0].n_elem : 0;
         std::vector<std::vector<double> > samples(nx,std::vector<double>(ny));
         for (int i = 0; i < nx; i++) {
             samples[i] = arma::conv_to<std::vector<double> >::from(samples_[i]);
-- 
2.43.0


From a1eec08d9969a74e475c76b6d672b9b7cc2d4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:53 +0000
Subject: [PATCH 33/45] fix: sample variance without cancellation for series of
 large mean

---
 src/carmcmc.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 5205f5c..6c91940 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -34,8 +34,12 @@ RunCar1Sampler(int sample_size, int burnin, std::vector<double> time, std::vecto
     int p = 1;    
     double sum = std::accumulate(y.begin(), y.end(), 0.0);
     double mean = sum / y.size();
-    double sq_sum = std::inner_product(y.begin(), y.end(), y.begin(), 0.0);
-    double var = (sq_sum / y.size() - mean * mean);
+    // subtract the mean before squaring, otherwise the variance is lost when the mean is large
+    double sq_sum = 0.0;
+    for (std::size_t i=0; i<y.size(); i++) {
+        sq_sum += (y[i] - mean) * (y[i] - mean);
+    }
+    double var = sq_sum / y.size();
 
 	double max_stdev = 10.0 * std::sqrt(var); // For prior: maximum standard-deviation of CAR(1) process
         
@@ -84,8 +88,12 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
     assert(p > 1);
     double sum = std::accumulate(y.begin(), y.end(), 0.0);
     double mean = sum / y.size();
-    double sq_sum = std::inner_product(y.begin(), y.end(), y.begin(), 0.0);
-    double var = (sq_sum / y.size() - mean * mean);
+    // subtract the mean before squaring, otherwise the variance is lost when the mean is large
+    double sq_sum = 0.0;
+    for (std::size_t i=0; i<y.size(); i++) {
+        sq_sum += (y[i] - mean) * (y[i] - mean);
+    }
+    double var = sq_sum / y.size();
     double max_stdev = 10.0 * sqrt(var);
     
     // Set the temperature ladder. The logarithms of the temperatures are on a linear grid
-- 
2.43.0


From 50bcb9c22287f3d25c1c9351c371612e6b290c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:53 +0000
Subject: [PATCH 34/45] fix: interpolate over the observed time range in
 assess_fit

---
 src/carmcmc/carma_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carmcmc/carma_pack.py b/src/carmcmc/carma_pack.py
index 4917468..2e69310 100644
--- a/src/carmcmc/carma_pack.py
+++ b/src/carmcmc/carma_pack.py
@@ -715,7 +715,7 @@ class CarmaSample(samplers.MCMCSample):
 
         fig = plt.figure()
         # compute the marginal mean and variance of the predicted values
-        time_predict = np.linspace(1.001 * self.time.min(), self.time.max(), nplot)
+        time_predict = np.linspace(self.time.min(), self.time.max(), nplot)
         predicted_mean, predicted_var = self.predict(time_predict, bestfit=bestfit)
         predicted_low = predicted_mean - np.sqrt(predicted_var)
         predicted_high = predicted_mean + np.sqrt(predicted_var)
-- 
2.43.0


From 743a913c906827edcbab4d0f1f77cec8abe0f30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:29 +0000
Subject: [PATCH 35/45] fix: delete steps, parameters, proposals and filters
 through virtual destructors

---
 src/include/kfilter.hpp    | 2 ++
 src/include/parameters.hpp | 3 +++
 src/include/proposals.hpp  | 1 +
 src/include/steps.hpp      | 3 +++
 4 files changed, 9 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 9d25106..94f20da 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -39,6 +39,8 @@ public:
         init();
     }
 
+    virtual ~KalmanFilter() {}
+
     // Initialize arrays
     void init() {
         int ndata = time_.n_elem;
diff --git a/src/include/parameters.hpp b/src/include/parameters.hpp
index 9a5f456..83b9ab5 100644
--- a/src/include/parameters.hpp
+++ b/src/include/parameters.hpp
@@ -36,6 +36,9 @@ public:
     BaseParameter(bool track, std::string label, double temperature=1.0) :
     track_(track), label_(label), temperature_(temperature) {}
     
+    // parameters are owned and deleted through pointers to their base classes
+    virtual ~BaseParameter() {}
+    
 	// Return the current value of the log-posterior. Useful for
 	// Metropolis steps so we don't have to compute the log-posterior
 	// for the current value of the parameter more than once
diff --git a/src/include/proposals.hpp b/src/include/proposals.hpp
index 6d50cab..65004f2 100644
--- a/src/include/proposals.hpp
+++ b/src/include/proposals.hpp
@@ -25,6 +25,7 @@ template <typename ProposalType>
 class Proposal {
 public:
     Proposal() {}
+    virtual ~Proposal() {}
 	virtual ProposalType Draw(ProposalType starting_value) = 0;
 	virtual double LogDensity(ProposalType new_value, ProposalType starting_value) = 0;
 };
diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index d7fa683..926a548 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -47,6 +47,9 @@ std::string to_string (const T& t) {
 // The Step class will never be instantiated directly.
 class Step {
 public:
+	// steps are owned and deleted through pointers to this class
+	virtual ~Step() {}
+	
 	virtual void DoStep() = 0;
 	
 	// Should return the label of the parameter associated with the step instance.
-- 
2.43.0


From 4bd0403e66aa459e6b85dd341fb5a289e9ca6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:41 +0000
Subject: [PATCH 36/45] fix: give the members of filters, parameters and steps
 defined initial values

---
 src/include/kfilter.hpp    | 10 +++++-----
 src/include/parameters.hpp |  6 +++---
 src/include/steps.hpp      |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 94f20da..f7af9f6 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -31,10 +31,10 @@ public:
     arma::vec mean;
     arma::vec var;
 
-    // Constructor
-    KalmanFilter() {};
+    // Constructor. The variance of the driving noise is undefined until it is set.
+    KalmanFilter() : sigsqr_(arma::datum::nan), omega_(), current_index_(0), yconst_(0.0), yslope_(0.0) {};
     KalmanFilter(arma::vec& time, arma::vec& y, arma::vec& yerr) :
-    time_(time), y_(y), yerr_(yerr)
+    time_(time), y_(y), yerr_(yerr), sigsqr_(arma::datum::nan), omega_(), current_index_(0), yconst_(0.0), yslope_(0.0)
     {
         init();
     }
@@ -395,7 +395,7 @@ public:
 private:
     // parameters
     arma::rowvec ma_coefs_; // moving average terms
-    unsigned int p_; // the orders of the CARMA process
+    unsigned int p_ = 0; // the orders of the CARMA process
     // quantities defining the current state of the kalman filter
     arma::cx_vec state_vector_; // current value of the rotated state vector
     arma::cx_mat StateVar_; // stationary covariance matrix of the rotated state vector
@@ -403,7 +403,7 @@ private:
     arma::cx_mat PredictionVar_; // covariance matrix of the predicted rotated state vector
     arma::cx_vec kalman_gain_;
     arma::cx_vec rho_;
-    double innovation_;
+    double innovation_ = 0.0;
     // linear coefficients needed for doing interpolation or backcasting
     arma::cx_vec state_const_;
     arma::cx_vec state_slope_;    
diff --git a/src/include/parameters.hpp b/src/include/parameters.hpp
index 83b9ab5..bcb3299 100644
--- a/src/include/parameters.hpp
+++ b/src/include/parameters.hpp
@@ -86,12 +86,12 @@ public:
     
 protected:
 	/// Should this variable be tracked?
-	bool track_;
+	bool track_ = false;
 	/// Name of variable for tracking purposes.
 	std::string label_;
     // Temperature value, used when doing tempered steps. By default this is one.
-    double temperature_;
-    double log_posterior_; // The log of the posterior distribution
+    double temperature_ = 1.0;
+    double log_posterior_ = arma::datum::nan; // The log of the posterior distribution
 };
 
 // Templated abstract parameter class. Users should subclass the Parameter class because the
diff --git a/src/include/steps.hpp b/src/include/steps.hpp
index 926a548..5f52ac0 100644
--- a/src/include/steps.hpp
+++ b/src/include/steps.hpp
@@ -207,7 +207,7 @@ private:
 	Parameter<ParValueType>& parameter_;
 	Proposal<ParValueType>& proposal_;
 	boost::random::uniform_real_distribution<> uniform_;
-	double alpha_; // Acceptance probability
+	double alpha_ = 0.0; // Acceptance probability
 	int naccept_; // The number of accepted steps
 	int niter_; // The number of iterations performed
 	int report_iter_; // The number of iterations until we print out the average acceptance rate
@@ -287,7 +287,7 @@ private:
 	int niter_; // Number of iterations performed
 	int naccept_; // Number of MHA proposals accepted
 	int maxiter_; // Maximum number of iterations to update proposal scale matrix
-	double alpha_; // Acceptance probability
+	double alpha_ = 0.0; // Acceptance probability
 };
 
 // Class performing the exchange step used in Parallel Tempering
@@ -394,7 +394,7 @@ private:
     boost::random::uniform_real_distribution<> uniform_;
     int niter_; // The number of iterations performed since last report
     int naccept_; // The number of accepted exchanges since last report
-    double alpha_; // Metropolis-hastings ratio
+    double alpha_ = 0.0; // Metropolis-hastings ratio
 };
 
 #endif /* defined(__yamcmc____steps__) */
-- 
2.43.0


From 3afc2109fea16cc5c5114ad2c10cd07fa69bceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:18 +0000
Subject: [PATCH 37/45] fix: refuse sampler arguments that are negative, of
 different length or not finite

---
 src/carmcmc.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index 6c91940..e96e742 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -18,6 +18,8 @@
 #include <vector>
 #include <utility>
 #include <numeric>
+#include <cmath>
+#include <stdexcept>
 // Include the MCMC sampler header files
 #include <random.hpp>
 #include <proposals.hpp>
@@ -27,10 +29,28 @@
 #include "include/carpack.hpp"
 #include "include/carmcmc.hpp"
 
+// Refuse arguments for which the sampler cannot be run
+static void CheckSamplerInput(int sample_size, int burnin, int thin, const std::vector<double>& time,
+                              const std::vector<double>& y, const std::vector<double>& yerr)
+{
+    if (sample_size < 0 || burnin < 0 || thin < 1) {
+        throw std::invalid_argument("sample size and burn-in must not be negative, thinning interval must be at least one");
+    }
+    if (time.size() != y.size() || time.size() != yerr.size()) {
+        throw std::invalid_argument("time, y and yerr must have the same number of elements");
+    }
+    for (std::size_t i=0; i<time.size(); i++) {
+        if (!std::isfinite(time[i]) || !std::isfinite(y[i]) || !std::isfinite(yerr[i])) {
+            throw std::invalid_argument("time, y and yerr must be finite");
+        }
+    }
+}
+
 std::shared_ptr<CAR1>
 RunCar1Sampler(int sample_size, int burnin, std::vector<double> time, std::vector<double> y, std::vector<double> yerr, 
 	       int thin, const std::vector<double>& init)
 {
+    CheckSamplerInput(sample_size, burnin, thin, time, y, yerr);
     int p = 1;    
     double sum = std::accumulate(y.begin(), y.end(), 0.0);
     double mean = sum / y.size();
@@ -86,6 +106,7 @@ RunCarmaSampler(int sample_size, int burnin, std::vector<double> time, std::vect
                 int thin, const std::vector<double>& init)
 {
     assert(p > 1);
+    CheckSamplerInput(sample_size, burnin, thin, time, y, yerr);
     double sum = std::accumulate(y.begin(), y.end(), 0.0);
     double mean = sum / y.size();
     // subtract the mean before squaring, otherwise the variance is lost when the mean is large
-- 
2.43.0


From 0825be4f7981cefd5b0b57e15597863c865b5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:24 +0000
Subject: [PATCH 38/45] fix: refuse time, y and yerr of different lengths in
 filters and models

---
 src/include/carpack.hpp | 3 +++
 src/include/kfilter.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 9d44c9f..3cad1f3 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -66,6 +66,9 @@ public:
         y_  = arma::conv_to<arma::vec>::from(y);
         time_ = arma::conv_to<arma::vec>::from(time);
         yerr_ = arma::conv_to<arma::vec>::from(yerr);
+        if (y_.n_elem != time_.n_elem || yerr_.n_elem != time_.n_elem) {
+            throw std::invalid_argument("time, y and yerr must have the same number of elements");
+        }
         
         // keep the data in order of time, with one observation per time, as the Kalman filter does
         arma::uvec sorted_indices = arma::stable_sort_index(time_);
diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index f7af9f6..7ee33bc 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -10,6 +10,7 @@
 #define __carma_pack__kfilter__
 
 #include <armadillo>
+#include <stdexcept>
 #include <utility>
 #include <boost/assert.hpp>
 
@@ -43,6 +44,9 @@ public:
 
     // Initialize arrays
     void init() {
+        if (y_.n_elem != time_.n_elem || yerr_.n_elem != time_.n_elem) {
+            throw std::invalid_argument("time, y and yerr must have the same number of elements");
+        }
         int ndata = time_.n_elem;
         dt_ = time_(arma::span(1,ndata-1)) - time_(arma::span(0,ndata-2));
 
-- 
2.43.0


From cdf6e1a4ebd78feef7e960e9d3251f6a3ef7c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 39/45] fix: refuse a constant series, for which no starting
 values are found

---
 src/carmcmc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carmcmc.cpp b/src/carmcmc.cpp
index e96e742..b7ddabf 100644
--- a/src/carmcmc.cpp
+++ b/src/carmcmc.cpp
@@ -18,6 +18,7 @@
 #include <vector>
 #include <utility>
 #include <numeric>
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 // Include the MCMC sampler header files
@@ -44,6 +45,9 @@ static void CheckSamplerInput(int sample_size, int burnin, int thin, const std::
             throw std::invalid_argument("time, y and yerr must be finite");
         }
     }
+    if (!y.empty() && *std::min_element(y.begin(), y.end()) == *std::max_element(y.begin(), y.end())) {
+        throw std::invalid_argument("y must not be constant"); // there would be no starting values
+    }
 }
 
 std::shared_ptr<CAR1>
-- 
2.43.0


From b2233d3abaaff3f003283b970aa782abbe9ce04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:03 +0000
Subject: [PATCH 40/45] fix: refuse parameter vectors of the wrong length

---
 src/include/carpack.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/include/carpack.hpp b/src/include/carpack.hpp
index 3cad1f3..0316958 100644
--- a/src/include/carpack.hpp
+++ b/src/include/carpack.hpp
@@ -237,19 +237,26 @@ public:
     // grab the log-prior and log-posterior for a std::vector input
     double getLogPrior(std::vector<double> theta)
     {
-        arma::vec armaVec = arma::conv_to<arma::vec>::from(theta);
-        return LogPrior(armaVec);
+        return LogPrior(CheckedTheta(theta));
     }
     double getLogDensity(std::vector<double> theta)
     {
-        arma::vec armaVec = arma::conv_to<arma::vec>::from(theta);
-        return LogDensity(armaVec);
+        return LogDensity(CheckedTheta(theta));
     }
     
     // set flag for maximum-likelihood estimation
     void SetMLE(bool ignore_prior) {ignore_prior_ = ignore_prior;}
     
 protected:
+    // convert a parameter vector given by the user, which must have as many elements as the model has parameters
+    arma::vec CheckedTheta(const std::vector<double>& theta)
+    {
+        if (theta.size() != value_.n_elem) {
+            throw std::invalid_argument("the parameter vector has the wrong number of elements");
+        }
+        return arma::conv_to<arma::vec>::from(theta);
+    }
+    
     // time series data
     arma::vec time_;
     arma::vec y_;
-- 
2.43.0


From 1efba1f80e19436eb041190180bc68c68a902cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:12 +0000
Subject: [PATCH 41/45] fix: predict CAR(1) values next to error-free
 observations without cancellation

---
 src/kfilter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 01a7ba0..33a5af1 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -38,7 +38,7 @@ void KalmanFilter1::Update() {
         rho * var_ratio * (y_(current_index_-1) - mean(current_index_-1));
 		
     // Update the Kalman filter variance
-    var(current_index_) = sigsqr_ / (2.0 * omega_) * (1.0 - rho * rho) +
+    var(current_index_) = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt_(current_index_-1)) +
         rho * rho * previous_var * (1.0 - var_ratio);
     
     // add in contribution to variance from measurement errors
@@ -51,7 +51,8 @@ void KalmanFilter1::Update() {
 void KalmanFilter1::InitializeCoefs(double time, unsigned int itime, double ymean, double yvar) {
     yconst_ = 0.0;
     yslope_ = exp(-std::abs(time_(itime) - time) * omega_);
-    var[itime] = sigsqr_ / (2.0 * omega_) * (1.0 - yslope_ * yslope_) + yerr_(itime) * yerr_(itime);
+    var[itime] = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * std::abs(time_(itime) - time)) +
+        yerr_(itime) * yerr_(itime);
     current_index_ = itime + 1;
 }
 
@@ -63,7 +64,7 @@ void KalmanFilter1::UpdateCoefs() {
     
     yslope_ *= rho * (1.0 - var_ratio);
     yconst_ = yconst_ * rho * (1.0 - var_ratio) + rho * var_ratio * y_[current_index_-1];
-    var(current_index_) = sigsqr_ / (2.0 * omega_) * (1.0 - rho * rho) +
+    var(current_index_) = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt_(current_index_-1)) +
         rho * rho * previous_var * (1.0 - var_ratio) + yerr_(current_index_) * yerr_(current_index_);
     current_index_++;
 }
@@ -109,7 +110,7 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
         var_ratio = previous_var / var(ipredict-1);
         // initialize the conditional mean and variance
         ypredict_mean = rho * mean(ipredict-1) + rho * var_ratio * (y_(ipredict-1) - mean(ipredict-1));
-        ypredict_var = sigsqr_ / (2.0 * omega_) * (1.0 - rho * rho) + rho * rho * previous_var * (1.0 - var_ratio);
+        ypredict_var = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt) + rho * rho * previous_var * (1.0 - var_ratio);
     }
     
     if (ipredict == time_.n_elem) {
-- 
2.43.0


From f1a14e6e6850e2a3ea72d842350a8a5720cc2b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:18 +0000
Subject: [PATCH 42/45] fix: keep CARMA predictions and simulations finite
 where values are known to rounding errors

---
 src/include/kfilter.hpp | 12 ++++++++++++
 src/kfilter.cpp         | 34 +++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 7ee33bc..59b1065 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -158,6 +158,11 @@ public:
         yerr_insert(0) = 0.0;
         for (std::uint64_t i=0; i<time.n_elem; i++) {
             insert_idx = 0;
+            if ( (i > 0) && (time(i) == time(i-1)) ) {
+                // the same time was requested more than once
+                ysimulated(i) = ysimulated(i-1);
+                continue;
+            }
             // first simulate the value at time(i)
             std::pair<double, double> ypredict = this->Predict(time(i));
             ysimulated(i) = RandGen.normal(ypredict.first, sqrt(ypredict.second));
@@ -172,6 +177,10 @@ public:
                 // the value at this time is already known exactly
                 continue;
             }
+            if (ypredict.second < 1e4 * rounding_var_) {
+                // the other values determine this one, using it too would only add rounding errors
+                continue;
+            }
             // insert the simulated value into the measured time series array. these values are used in subsequent
             // calls to Predict(time(i)).
             tinsert(0) = time(i);
@@ -223,6 +232,8 @@ protected:
     unsigned int current_index_;
     // linear coefficients needed for doing interpolation or backcasting
     double yconst_, yslope_;
+    // variances of the process below this value cannot be told from rounding errors
+    double rounding_var_ = 0.0;
 };
 
 /*
@@ -388,6 +399,7 @@ public:
     std::pair<double, double> Predict(double time);
     void InitializeCoefs(double time, unsigned int itime, double ymean, double yvar);
     void UpdateCoefs();
+    arma::cx_vec KalmanGain(double yvar);
     
     std::vector<double> Simulate(std::vector<double> time) {
         arma::vec armatime = arma::conv_to<arma::vec>::from(time);
diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 33a5af1..e229c52 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -191,16 +191,27 @@ void KalmanFilterp::Reset() {
 	// previous measurements
 	mean(0) = 0.0;
     var(0) = std::real( arma::as_scalar(rotated_ma_coefs_ * StateVar_ * rotated_ma_coefs_.t()) );
+    rounding_var_ = 2.0 * std::numeric_limits<double>::epsilon() *
+        arma::as_scalar(arma::abs(rotated_ma_coefs_) * arma::abs(StateVar_) * arma::abs(rotated_ma_coefs_).st());
     var(0) += yerr_(0) * yerr_(0); // Add in measurement error contribution
 
 	innovation_ = y_(0); // The innovation
     current_index_ = 1;
 }
 
+// Return the Kalman gain for a value of predicted variance yvar. A value that earlier values determine to within the
+// rounding errors adds nothing but rounding errors, so its gain is zero.
+arma::cx_vec KalmanFilterp::KalmanGain(double yvar) {
+    if (yvar <= rounding_var_) {
+        return arma::zeros<arma::cx_vec>(p_);
+    }
+    return PredictionVar_ * rotated_ma_coefs_.t() / yvar;
+}
+
 // Perform one iteration of the Kalman Filter for a CARMA(p,q) process to update it
 void KalmanFilterp::Update() {
     // First compute the Kalman Gain
-    kalman_gain_ = PredictionVar_ * rotated_ma_coefs_.t() / var(current_index_-1);
+    kalman_gain_ = KalmanGain(var(current_index_-1));
     
     // Now update the state vector
     state_vector_ += kalman_gain_ * innovation_;
@@ -219,6 +230,7 @@ void KalmanFilterp::Update() {
     mean(current_index_) = std::real( arma::as_scalar(rotated_ma_coefs_ * state_vector_) );
     
     var(current_index_) = std::real( arma::as_scalar(rotated_ma_coefs_ * PredictionVar_ * rotated_ma_coefs_.t()) );
+    var(current_index_) = std::max(var(current_index_), rounding_var_); // Rounding errors must not make it negative
     var(current_index_) += yerr_(current_index_) * yerr_(current_index_); // Add in measurement error contribution
     
     // Finally, update the innovation
@@ -261,7 +273,7 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
         ypredict_var = std::real( arma::as_scalar(rotated_ma_coefs_ * StateVar_ * rotated_ma_coefs_.t()) );
     } else {
         // predict the value of the time series at time, given the earlier values
-        kalman_gain_ = PredictionVar_ * rotated_ma_coefs_.t() / var(ipredict-1);
+        kalman_gain_ = KalmanGain(var(ipredict-1));
         state_vector_ += kalman_gain_ * innovation_;
         PredictionVar_ -= var(ipredict-1) * (kalman_gain_ * kalman_gain_.t());
         double dt = std::abs(time - time_(ipredict-1));
@@ -274,9 +286,9 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
         ypredict_var = std::real( arma::as_scalar(rotated_ma_coefs_ * PredictionVar_ * rotated_ma_coefs_.t()) );
     }
 
-    if (ipredict == time_.n_elem) {
-        // Forecasting, so we're done: no need to run interpolation steps
-        std::pair<double, double> ypredict(ypredict_mean, ypredict_var);
+    if ( (ipredict == time_.n_elem) || (ypredict_var < rounding_var_) ) {
+        // Forecasting or known from the earlier values, so we're done: no need to run interpolation steps
+        std::pair<double, double> ypredict(ypredict_mean, std::max(ypredict_var, 0.0));
         return ypredict;
     }
 
@@ -289,11 +301,19 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
     
     InitializeCoefs(time, ipredict, ypredict_mean / yprecision, ypredict_var);
 
+    if (var(ipredict) < rounding_var_) {
+        // the value at time is known from the next value
+        return std::pair<double, double>((y_(ipredict) - yconst_) / yslope_, 0.0);
+    }
+
     yprecision += yslope_ * yslope_ / var(ipredict);
     ypredict_mean += yslope_ * (y_(ipredict) - yconst_) / var(ipredict);
     
     for (std::uint64_t i=ipredict+1; i<time_.n_elem; i++) {
         UpdateCoefs();
+        if (var(i) < rounding_var_) {
+            continue;
+        }
         yprecision += yslope_ * yslope_ / var(i);
         ypredict_mean += yslope_ * (y_(i) - yconst_) / var(i);
     }
@@ -309,7 +329,7 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
 // the time series at time, where time_(itime-1) < time < time_(itime)
 void KalmanFilterp::InitializeCoefs(double time, unsigned int itime, double ymean, double yvar) {
     
-    kalman_gain_ = PredictionVar_ * rotated_ma_coefs_.t() / yvar;
+    kalman_gain_ = KalmanGain(yvar);
     // initialize the coefficients for predicting the state vector at coefs(time_predict|time_predict)
     state_const_ = state_vector_ - kalman_gain_ * ymean;
     state_slope_ = kalman_gain_;
@@ -335,7 +355,7 @@ void KalmanFilterp::InitializeCoefs(double time, unsigned int itime, double ymea
 // time series value at some earlier time
 void KalmanFilterp::UpdateCoefs() {
     
-    kalman_gain_ = PredictionVar_ * rotated_ma_coefs_.t() / var(current_index_-1);
+    kalman_gain_ = KalmanGain(var(current_index_-1));
     // update the coefficients for predicting the state vector at coefs(i|i-1) --> coefs(i|i)
     state_const_ += kalman_gain_ * (y_(current_index_-1) - yconst_);
     state_slope_ -= kalman_gain_ * yslope_;
-- 
2.43.0


From 84a4899db93a5a7391ca23a884e61b02e8d48609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:50 +0000
Subject: [PATCH 43/45] fix: keep CAR(1) variances accurate when measurement
 errors are large

The one-step variance without the measurement error was found by subtracting
the squared error from the total.  With errors much larger than the process
that left no correct digits, and the means, variances and predictions that
follow were wrong.  The filter now remembers the variance of the process.
---
 src/include/kfilter.hpp |  4 ++++
 src/kfilter.cpp         | 22 ++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 59b1065..2a30aa4 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -292,6 +292,10 @@ public:
         std::vector<double> vecsimulate = arma::conv_to<std::vector<double> >::from(armasimulate);
         return vecsimulate;
     }
+
+private:
+    // latest variance without the measurement error: subtracting that from var loses all digits if it is large
+    double process_var_ = 0.0;
 };
 
 /*
diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index e229c52..00b313f 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -19,7 +19,8 @@ extern RandomGenerator RandGen;
 void KalmanFilter1::Reset() {
     
     mean(0) = 0.0;
-    var(0) = sigsqr_ / (2.0 * omega_) + yerr_(0) * yerr_(0);
+    process_var_ = sigsqr_ / (2.0 * omega_);
+    var(0) = process_var_ + yerr_(0) * yerr_(0);
     yconst_ = 0.0;
     yslope_ = 0.0;
     current_index_ = 1;
@@ -30,7 +31,7 @@ void KalmanFilter1::Update() {
     
     double rho, var_ratio, previous_var;
     rho = exp(-1.0 * omega_ * dt_(current_index_-1));
-    previous_var = var(current_index_-1) - yerr_(current_index_-1) * yerr_(current_index_-1);
+    previous_var = process_var_;
     var_ratio = previous_var / var(current_index_-1);
 		
     // Update the Kalman filter mean
@@ -38,11 +39,11 @@ void KalmanFilter1::Update() {
         rho * var_ratio * (y_(current_index_-1) - mean(current_index_-1));
 		
     // Update the Kalman filter variance
-    var(current_index_) = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt_(current_index_-1)) +
+    process_var_ = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt_(current_index_-1)) +
         rho * rho * previous_var * (1.0 - var_ratio);
     
     // add in contribution to variance from measurement errors
-    var(current_index_) += yerr_(current_index_) * yerr_(current_index_);
+    var(current_index_) = process_var_ + yerr_(current_index_) * yerr_(current_index_);
     
     current_index_++;
 }
@@ -51,21 +52,22 @@ void KalmanFilter1::Update() {
 void KalmanFilter1::InitializeCoefs(double time, unsigned int itime, double ymean, double yvar) {
     yconst_ = 0.0;
     yslope_ = exp(-std::abs(time_(itime) - time) * omega_);
-    var[itime] = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * std::abs(time_(itime) - time)) +
-        yerr_(itime) * yerr_(itime);
+    process_var_ = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * std::abs(time_(itime) - time));
+    var[itime] = process_var_ + yerr_(itime) * yerr_(itime);
     current_index_ = itime + 1;
 }
 
 // Update the coefficients used for interpolation and backcasting, assuming a CAR(1) process
 void KalmanFilter1::UpdateCoefs() {
     double rho = exp(-1.0 * dt_(current_index_-1) * omega_);
-    double previous_var = var(current_index_-1) - yerr_(current_index_-1) * yerr_(current_index_-1);
+    double previous_var = process_var_;
     double var_ratio = previous_var / var(current_index_-1);
     
     yslope_ *= rho * (1.0 - var_ratio);
     yconst_ = yconst_ * rho * (1.0 - var_ratio) + rho * var_ratio * y_[current_index_-1];
-    var(current_index_) = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt_(current_index_-1)) +
-        rho * rho * previous_var * (1.0 - var_ratio) + yerr_(current_index_) * yerr_(current_index_);
+    process_var_ = -sigsqr_ / (2.0 * omega_) * expm1(-2.0 * omega_ * dt_(current_index_-1)) +
+        rho * rho * previous_var * (1.0 - var_ratio);
+    var(current_index_) = process_var_ + yerr_(current_index_) * yerr_(current_index_);
     current_index_++;
 }
 
@@ -106,7 +108,7 @@ std::pair<double, double> KalmanFilter1::Predict(double time) {
         // predict the value of the time series at time, given the earlier values
         double dt = time - time_[ipredict-1];
         rho = exp(-dt * omega_);
-        previous_var = var(ipredict-1) - yerr_(ipredict-1) * yerr_(ipredict-1);
+        previous_var = process_var_;
         var_ratio = previous_var / var(ipredict-1);
         // initialize the conditional mean and variance
         ypredict_mean = rho * mean(ipredict-1) + rho * var_ratio * (y_(ipredict-1) - mean(ipredict-1));
-- 
2.43.0


From b39e6041352e2ad857595d6fdb6b444775003076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:38 +0000
Subject: [PATCH 44/45] fix: let later error-free values determine CARMA
 predictions next to them

---
 src/kfilter.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 00b313f..340bbcf 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -313,11 +313,10 @@ std::pair<double, double> KalmanFilterp::Predict(double time) {
     
     for (std::uint64_t i=ipredict+1; i<time_.n_elem; i++) {
         UpdateCoefs();
-        if (var(i) < rounding_var_) {
-            continue;
-        }
-        yprecision += yslope_ * yslope_ / var(i);
-        ypredict_mean += yslope_ * (y_(i) - yconst_) / var(i);
+        // a value known to within the rounding errors has at least their variance
+        double yvar = std::max(var(i), rounding_var_);
+        yprecision += yslope_ * yslope_ / yvar;
+        ypredict_mean += yslope_ * (y_(i) - yconst_) / yvar;
     }
     
     ypredict_var = 1.0 / yprecision;
-- 
2.43.0


From 1ff54888782aa85bd91e57aa4da9eff332989719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:47 +0000
Subject: [PATCH 45/45] fix: restart the CARMA filter when rounding errors make
 it diverge

---
 src/include/kfilter.hpp |  1 +
 src/kfilter.cpp         | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/include/kfilter.hpp b/src/include/kfilter.hpp
index 2a30aa4..e4612ca 100644
--- a/src/include/kfilter.hpp
+++ b/src/include/kfilter.hpp
@@ -404,6 +404,7 @@ public:
     void InitializeCoefs(double time, unsigned int itime, double ymean, double yvar);
     void UpdateCoefs();
     arma::cx_vec KalmanGain(double yvar);
+    bool Diverged();
     
     std::vector<double> Simulate(std::vector<double> time) {
         arma::vec armatime = arma::conv_to<arma::vec>::from(time);
diff --git a/src/kfilter.cpp b/src/kfilter.cpp
index 340bbcf..73e7d2e 100644
--- a/src/kfilter.cpp
+++ b/src/kfilter.cpp
@@ -210,6 +210,13 @@ arma::cx_vec KalmanFilterp::KalmanGain(double yvar) {
     return PredictionVar_ * rotated_ma_coefs_.t() / yvar;
 }
 
+// Return true if rounding errors have made the state prediction variances larger than the stationary ones. The errors
+// then grow from one value to the next until they overflow, so the filter has to forget the earlier values.
+bool KalmanFilterp::Diverged() {
+    arma::vec state_var = arma::abs(PredictionVar_.diag());
+    return arma::any(state_var > 2.0 * arma::abs(StateVar_.diag()));
+}
+
 // Perform one iteration of the Kalman Filter for a CARMA(p,q) process to update it
 void KalmanFilterp::Update() {
     // First compute the Kalman Gain
@@ -220,6 +227,10 @@ void KalmanFilterp::Update() {
     
     // Update the state one-step prediction error variance
     PredictionVar_ -= var(current_index_-1) * (kalman_gain_ * kalman_gain_.t());
+    if (Diverged()) {
+        PredictionVar_ = StateVar_;
+        state_vector_.zeros();
+    }
     
     // Predict the next state
     rho_ = arma::exp(omega_ * dt_(current_index_-1));
@@ -362,6 +373,11 @@ void KalmanFilterp::UpdateCoefs() {
     state_slope_ -= kalman_gain_ * yslope_;
     // update the state one-step prediction error variance
     PredictionVar_ -= var(current_index_-1) * (kalman_gain_ * kalman_gain_.t());
+    if (Diverged()) {
+        PredictionVar_ = StateVar_;
+        state_const_.zeros();
+        state_slope_.zeros();
+    }
     // compute the one-step state prediction coefficients: coefs(i|i) --> coefs(i+1|i)
     rho_ = arma::exp(omega_ * dt_(current_index_-1));
     state_const_ = rho_ % state_const_;
-- 
2.43.0

